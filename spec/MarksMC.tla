------------------------------ MODULE MarksMC ------------------------------
(* All histograms of up to MaxLen bins and all error bar rows over small coordinates. *)
EXTENDS Marks, TLC, Json
CONSTANTS Mode, Xs, Vs, Off, Lo, Hi, MaxLen
w == [lo |-> Lo, hi |-> Hi]
X == {x - Off : x \in Xs}
Y == {v - Off : v \in Vs}
Froms == {<<>>} \cup {<<Lo - 1>>, <<Lo>>, <<Lo + 1>>, <<Hi + 1>>}
Bins == {<<>>} \cup {<<p[1], p[2], v>> : p \in {q \in X \X X : q[1] < q[2]}, v \in Y}
Opt == {<<>>} \cup {<<v>> : v \in Y}
Rows == {r \in [p : Opt \X Opt, min : Opt \X Opt, max : Opt \X Opt] :
   /\ r.min[2] = <<>> /\ r.max[2] = <<>>
   /\ (r.min[1] # <<>> /\ r.max[1] # <<>> => r.min[1][1] <= r.max[1][1])
   /\ (r.min[1] # <<>> /\ r.p[1] # <<>> => r.min[1][1] <= r.p[1][1])
   /\ (r.max[1] # <<>> /\ r.p[1] # <<>> => r.p[1][1] <= r.max[1][1])}
VARIABLE rows
Init == rows = <<>>
Next == Len(rows) < MaxLen /\ \E b \in IF Mode = "hist" THEN Bins ELSE Rows : rows' = Append(rows, b)
wide == [lo |-> -50, hi |-> 50]
\* --- histograms
Hist == Mode = "hist"
\* the step line is part of the boxes, the boxes without the inner walls
StepsInBoxes == Hist => \A f \in Froms : f # <<>> => Steps(w, rows, f) \subseteq
   (Boxes(w, rows, f) \cup UNION {IF Joined(rows, k) THEN V(rows[k][2], rows[k][3], rows[k + 1][3]) ELSE {} : k \in DOMAIN rows})
\* the outline of an area: edges between a cell inside and one outside belong to the boxes with base
Bound(cs, e) == LET a == IF e[1] = "h" THEN <<e[2], e[3] - 1>> ELSE <<e[2] - 1, e[3]>>  b == <<e[2], e[3]>> IN (a \in cs) # (b \in cs)
AllEdges(cs) == UNION {{<<"h", c[1], c[2]>>, <<"h", c[1], c[2] + 1>>, <<"v", c[1], c[2]>>, <<"v", c[1] + 1, c[2]>>} : c \in cs}
OutlineIsBoxes == Hist => \A f \in Froms : f # <<>> => LET cs == Area(wide, rows, f) IN
   {e \in AllEdges(cs) : Bound(cs, e)} \subseteq FullBoxes(wide, rows, f)
\* the order of the bins does not matter for boxes and areas; clipping a wider picture gives the picture
Cut == Hist => \A f \in Froms : f # <<>> => /\ Boxes(w, rows, f) = ClipE(w, Boxes(wide, rows, f))
                                           /\ Steps(w, rows, f) = ClipE(w, Steps(wide, rows, f))
                                           /\ Area(w, rows, f) = ClipC(w, Area(wide, rows, f))
EachBinReached == Hist => \A k \in DOMAIN rows : rows[k] # <<>> /\ In(w, rows[k][3]) => ClipE(w, H(rows[k][1], rows[k][2], rows[k][3])) \subseteq Steps(w, rows, <<Lo>>)
\* --- error bars: caps end bars
CapsEnd == ~Hist => \A c \in Caps(w, rows) : In(w, c[2]) /\ In(w, c[3])
BarsInside == ~Hist => ErrorEdges(w, rows) = ClipE(w, ErrorEdges(w, rows))
Emit == rows # <<>> => PrintT("@" \o ToJson(
   IF Hist THEN [rows |-> rows, v |-> {[f |-> f, box |-> Boxes(w, rows, f), step |-> Steps(w, rows, f), area |-> Area(w, rows, f),
                                      full |-> IF Simple(w, rows, f) THEN FullBoxes(w, rows, f) ELSE {}, simple |-> Simple(w, rows, f)] : f \in Froms}]
   ELSE [rows |-> rows, bars |-> ErrorEdges(w, rows), caps |-> Caps(w, rows)]))
=============================================================================
