------------------------------- MODULE Layers -------------------------------
(* The layer tree of a canvas: what is above and below each other.                              *)
(* A canvas is a sequence (bottom to top) of entries: drawn items and named layers, where a      *)
(* layer is again a canvas.  Layer names are paths (sequences of name components).              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Item(id)     == [k |-> "item", id |-> id, name |-> "", c |-> <<>>]
LayerE(n, c) == [k |-> "layer", id |-> 0, name |-> n, c |-> c]

Positions(c, n) == {i \in DOMAIN c : c[i].k = "layer" /\ c[i].name = n}
Has(c, n)   == Positions(c, n) # {}
Pos(c, n)   == CHOOSE i \in Positions(c, n) : TRUE
Without(c, i) == SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c))
InsertAt(c, i, e) == SubSeq(c, 1, i - 1) \o <<e>> \o SubSeq(c, i, Len(c))

(* A request for layer p (a name path), placed above/below the sibling layer ref ("none": no     *)
(* placement).  ok: whether the request is honoured; c: the canvas afterwards.  A refused request *)
(* leaves the canvas as it was.                                                                  *)
RECURSIVE Request(_, _, _, _)
Request(c, p, where, ref) ==
  LET n == Head(p) IN
  IF Len(p) = 1 THEN
     IF where = "none"
     THEN [ok |-> TRUE, c |-> IF Has(c, n) THEN c ELSE Append(c, LayerE(n, <<>>))]
     ELSE IF Len(ref) # 1 \/ ~Has(c, ref[1]) \/ ref[1] = n
     THEN [ok |-> FALSE, c |-> c]
     ELSE LET old  == IF Has(c, n) THEN c[Pos(c, n)] ELSE LayerE(n, <<>>)
              rest == IF Has(c, n) THEN Without(c, Pos(c, n)) ELSE c
              at   == Pos(rest, ref[1])
          IN [ok |-> TRUE, c |-> InsertAt(rest, IF where = "above" THEN at + 1 ELSE at, old)]
  ELSE IF where # "none" /\ (Len(ref) < 2 \/ Head(ref) # n) THEN [ok |-> FALSE, c |-> c]
  ELSE LET base == IF Has(c, n) THEN c ELSE Append(c, LayerE(n, <<>>))
           i    == Pos(base, n)
           sub  == Request(base[i].c, Tail(p), where, IF where = "none" THEN <<>> ELSE Tail(ref))
       IN IF sub.ok THEN [ok |-> TRUE, c |-> [base EXCEPT ![i].c = sub.c]]
                    ELSE [ok |-> FALSE, c |-> c]

(* draw an item into layer p (the empty path is the canvas itself) *)
RECURSIVE Draw(_, _, _)
Draw(c, p, id) ==
  IF p = <<>> THEN Append(c, Item(id))
  ELSE LET r == Request(c, <<Head(p)>>, "none", <<>>).c
           i == Pos(r, Head(p))
       IN [r EXCEPT ![i].c = Draw(@, Tail(p), id)]

(* what is painted, bottom to top *)
RECURSIVE Flat(_)
Flat(c) == IF c = <<>> THEN <<>>
           ELSE (IF Head(c).k = "item" THEN <<Head(c).id>> ELSE Flat(Head(c).c)) \o Flat(Tail(c))

RECURSIVE UniqueNames(_)
UniqueNames(c) == /\ \A i, j \in DOMAIN c : c[i].k = "layer" /\ c[j].k = "layer" /\ c[i].name = c[j].name => i = j
                  /\ \A i \in DOMAIN c : c[i].k = "layer" => UniqueNames(c[i].c)
Range(s) == {s[i] : i \in DOMAIN s}
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
=============================================================================
