------------------------------ MODULE LayersMC ------------------------------
(* Bounded exhaustive exploration of the layer operations; every maximal behaviour is emitted     *)
(* (operations and the expected paint order after each) and replayed into the real canvas.       *)
EXTENDS Layers, TLC, Json
CONSTANTS MaxOps
Paths == { <<"a">>, <<"b">>, <<"g", "x">>, <<"g", "y">> }
VARIABLES c, n, hist, drawn
vars == <<c, n, hist, drawn>>

Init == c = <<>> /\ n = 0 /\ hist = <<>> /\ drawn = {}

Step(op, newc, ok) == /\ c' = newc
                      /\ n' = n + 1
                      /\ hist' = Append(hist, [op EXCEPT !.ok = ok, !.flat = Flat(newc)])
Op(k, p, w, r, id) == [k |-> k, p |-> p, w |-> w, r |-> r, id |-> id, ok |-> TRUE, flat |-> <<>>]

DoDraw(p) == /\ Step(Op("draw", p, "none", <<>>, n + 1), Draw(c, p, n + 1), TRUE)
             /\ drawn' = drawn \cup {n + 1}
DoLayer(p, w, r) == LET q == Request(c, p, w, r) IN
             /\ Step(Op("layer", p, w, r, 0), q.c, q.ok)
             /\ UNCHANGED drawn
DoClear == Step(Op("clear", <<>>, "none", <<>>, 0), <<>>, TRUE) /\ drawn' = {}

Next == /\ n < MaxOps
        /\ \/ \E p \in {<<>>} \cup Paths : DoDraw(p)
           \/ \E p \in Paths, w \in {"above", "below"}, r \in Paths : DoLayer(p, w, r)
           \/ n = MaxOps - 2 /\ DoClear

\* laws of the specification itself
NothingLost == Range(Flat(c)) = drawn /\ Len(Flat(c)) = Cardinality(drawn)
Unique == UniqueNames(c)
\* a honoured request puts the layer directly above / below the reference, and moves nothing else
Placement == \A i \in DOMAIN hist :
   LET h == hist[i] IN
   h.k = "layer" /\ i = Len(hist) /\ h.ok /\ Len(h.p) = 1 =>
      Pos(c, h.p[1]) = (IF h.w = "above" THEN Pos(c, h.r[1]) + 1 ELSE Pos(c, h.r[1]) - 1)
Emit == n = MaxOps => PrintT("@" \o ToJson(hist))
=============================================================================
