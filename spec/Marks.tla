------------------------------- MODULE Marks -------------------------------
(* What the plot styles which show ranges and areas mark in a graph.                              *)
(* The plane is the integer grid; a graph shows the window w = [lo, hi] in both directions.       *)
(* Strokes are sets of unit edges <<"h", x, y>> (from (x, y) to (x+1, y)) and <<"v", x, y>>,      *)
(* filled areas are sets of unit cells <<x, y>>.  A value is <<n>> or, when missing, <<>>.        *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
H(x1, x2, y) == {<<"h", x, y>> : x \in Min2(x1, x2)..(Max2(x1, x2) - 1)}
V(x, y1, y2) == {<<"v", x, y>> : y \in Min2(y1, y2)..(Max2(y1, y2) - 1)}
Cells(x1, x2, y1, y2) == (Min2(x1, x2)..(Max2(x1, x2) - 1)) \X (Min2(y1, y2)..(Max2(y1, y2) - 1))
In(w, v) == w.lo <= v /\ v <= w.hi
ClipE(w, es) == {e \in es : IF e[1] = "h" THEN w.lo <= e[2] /\ e[2] < w.hi /\ In(w, e[3])
                                          ELSE In(w, e[2]) /\ w.lo <= e[3] /\ e[3] < w.hi}
ClipC(w, cs) == {c \in cs : \A i \in 1..2 : w.lo <= c[i] /\ c[i] < w.hi}
Swap(es) == {<<IF e[1] = "h" THEN "v" ELSE "h", e[3], e[2]>> : e \in es}
SwapC(cs) == {<<c[2], c[1]>> : c \in cs}
Turn(es, vi) == IF vi = 2 THEN es ELSE Swap(es)
TurnC(cs, vi) == IF vi = 2 THEN cs ELSE SwapC(cs)

\* ------------------------------------------------------------------ error bars
\* row: [p |-> <<x, y>>, min |-> <<xmin, ymin>>, max |-> <<xmax, ymax>>]
HasBar(w, r, i) == /\ r.p[3 - i] # <<>> /\ In(w, r.p[3 - i][1])
                   /\ (r.min[i] # <<>> \/ r.max[i] # <<>>)
                   /\ (r.min[i] # <<>> \/ r.p[i] # <<>>) /\ (r.max[i] # <<>> \/ r.p[i] # <<>>)
Low(r, i) == IF r.min[i] # <<>> THEN r.min[i][1] ELSE r.p[i][1]
High(r, i) == IF r.max[i] # <<>> THEN r.max[i][1] ELSE r.p[i][1]
Bar(w, r, i) == IF ~HasBar(w, r, i) THEN {}
                ELSE IF i = 1 THEN H(Low(r, 1), High(r, 1), r.p[2][1]) ELSE V(r.p[1][1], Low(r, 2), High(r, 2))
ErrorEdges(w, rows) == ClipE(w, UNION {Bar(w, rows[k], i) : k \in DOMAIN rows, i \in 1..2})
\* caps <<direction of the bar, x, y>> mark the ends given in the data and shown in the graph
At(r, i, v) == IF i = 1 THEN <<1, v, r.p[2][1]>> ELSE <<2, r.p[1][1], v>>
CapsOf(w, r, i) == IF ~HasBar(w, r, i) THEN {}
                   ELSE {At(r, i, v[1]) : v \in {u \in {r.min[i], r.max[i]} : u # <<>> /\ In(w, u[1])}}
Caps(w, rows) == UNION {CapsOf(w, rows[k], i) : k \in DOMAIN rows, i \in 1..2}

\* ------------------------------------------------------------------ rectangles
RectCells(w, r) == IF \E i \in 1..2 : r.min[i] = <<>> \/ r.max[i] = <<>> THEN {}
                   ELSE ClipC(w, Cells(r.min[1][1], r.max[1][1], r.min[2][1], r.max[2][1]))

\* ------------------------------------------------------------------ impulses
\* from the base value (<<>>: the lower end of the axis) to each point in the graph, along direction vi
Base(w, f) == IF f = <<>> THEN w.lo ELSE f[1]
Impulse(w, r, f, vi) == IF \E i \in 1..2 : r.p[i] = <<>> \/ (r.p[i] # <<>> /\ ~In(w, r.p[i][1])) THEN {}
                        ELSE IF vi = 2 THEN V(r.p[1][1], Base(w, f), r.p[2][1]) ELSE H(Base(w, f), r.p[1][1], r.p[2][1])
Impulses(w, rows, f, vi) == ClipE(w, UNION {Impulse(w, rows[k], f, vi) : k \in DOMAIN rows})

\* ------------------------------------------------------------------ histograms (bins along the first direction)
\* row: <<min, max, value>> or <<>>
Box(r, b) == IF r = <<>> THEN {} ELSE H(r[1], r[2], r[3]) \cup V(r[1], b, r[3]) \cup V(r[2], b, r[3])
Boxes(w, rows, f) == ClipE(w, UNION {Box(rows[k], Base(w, f)) : k \in DOMAIN rows})
Joined(rows, k) == k >= 1 /\ k < Len(rows) /\ rows[k] # <<>> /\ rows[k + 1] # <<>> /\ rows[k][2] = rows[k + 1][1]
Step(rows, k, b) ==
  IF rows[k] = <<>> THEN {}
  ELSE LET r == rows[k] IN
       H(r[1], r[2], r[3])
       \cup (IF Joined(rows, k - 1) THEN V(r[1], rows[k - 1][3], r[3]) ELSE V(r[1], b, r[3]))
       \cup (IF Joined(rows, k) THEN {} ELSE V(r[2], b, r[3]))
Steps(w, rows, f) == ClipE(w, UNION {Step(rows, k, Base(w, f)) : k \in DOMAIN rows})
Area(w, rows, f) == UNION {IF rows[k] = <<>> THEN {} ELSE ClipC(w, Cells(rows[k][1], rows[k][2], Base(w, f), rows[k][3])) : k \in DOMAIN rows}
\* the outline of fillable boxes includes the base
FullBox(r, b) == IF r = <<>> THEN {} ELSE Box(r, b) \cup H(r[1], r[2], b)
FullBoxes(w, rows, f) == ClipE(w, UNION {FullBox(rows[k], Base(w, f)) : k \in DOMAIN rows})
Cuts(w, r, f) == IF r = <<>> THEN 0 ELSE Cardinality({i \in 1..3 : ~In(w, r[i])}) + (IF In(w, Base(w, f)) THEN 0 ELSE 1)
Simple(w, rows, f) == \A k \in DOMAIN rows : Cuts(w, rows[k], f) <= 1
\* bins given by positions with equal distance: pp halves of a bin before the position
Auto(ps, vs, pp) == LET d == ps[2] - ps[1] IN
  [k \in DOMAIN ps |-> IF vs[k] = <<>> THEN <<>> ELSE <<ps[k] - (pp * d) \div 2, ps[k] + ((2 - pp) * d) \div 2, vs[k][1]>>]

\* ------------------------------------------------------------------ bars: number k of n covers <<k-1, k>>; vs[s] the values of stage s
\* addontop: stages are relative to the top of the previous stage
RECURSIVE Top(_, _, _)
Top(vs, s, rel) == IF s = 1 \/ ~(s - 1 \in rel) THEN vs[s]
                   ELSE LET t == Top(vs, s - 1, rel) IN IF t = <<>> \/ vs[s] = <<>> THEN <<>> ELSE <<t[1] + vs[s][1]>>
From(vs, s, rel, w, f) == IF s = 1 THEN <<Base(w, f)>> ELSE Top(vs, s - 1, rel)
BarCells(w, k, vs, s, rel, f) ==
  LET a == From(vs, s, rel, w, f)  b == Top(vs, s, rel) IN
  IF a = <<>> \/ b = <<>> THEN {} ELSE {c \in Cells(k - 1, k, a[1], b[1]) : w.lo <= c[2] /\ c[2] < w.hi}
=============================================================================
