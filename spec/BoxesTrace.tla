------------------------------ MODULE BoxesTrace ------------------------------
(* K01: alignments, extents, distances and tilings of boxes. Recorded numbers are 1/100. *)
EXTENDS TraceLib, Boxes
VARIABLES tid, l, st, err
U == 100
T == 2
Near(a, b, t) == a - b <= t /\ b - a <= t
NearPt(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
Scaled(ps) == [i \in DOMAIN ps |-> <<U * ps[i][1], U * ps[i][2]>>]
P(p) == <<U * p[1], U * p[2]>>
\* the box as a whole has moved by a vector along d
Shift(e) == Sub(e.got[1], P(e.ps[1]))
Rigid(e) == \A i \in DOMAIN e.ps : NearPt(Sub(e.got[i], P(e.ps[i])), Shift(e), T)
Along(v, d) == Abs(Cross(v, d)) <= T * (Abs(d[1]) + Abs(d[2]))
Line(e) ==
  LET v == Shift(e) IN
  << <<Rigid(e), "shape">>, <<Along(v, e.d), "direction">>, <<NearPt(e.gotc, <<U * e.c[1] + v[1], U * e.c[2] + v[2]>>, T), "centre">>,
     <<Near(Dot(v, e.d), U * LineShift(e.ps, e.c, e.a, e.d), 2 * T * N(e.d)), "distance">> >>
\* the box touches the circle around where its centre has been, and moving on would leave it
Nearest(ps, p, r) ==
  {i \in DOMAIN ps : Near(SideDist(ps[i], Nxt(ps, i), p), r, 3)}
Leaving(e) == \E i \in Nearest(e.got, P(e.c), U * e.a) :
   LET x == e.got[i] y == Nxt(e.got, i) g == Sub(y, x) IN
   IF g # <<0, 0>> /\ OnSide(x, y, P(e.c)) THEN Cross(g, e.d) >= -(Hypot(g) \div 50) * N(e.d) ELSE \E q \in {x, y} : Near(Hypot(Sub(q, P(e.c))), U * e.a, 3) /\ Dot(Sub(q, P(e.c)), e.d) >= -20 * N(e.d)
Circle(e) ==
  LET v == Shift(e) IN
  << <<Rigid(e), "shape">>, <<Along(v, e.d), "direction">>, <<NearPt(e.gotc, <<U * e.c[1] + v[1], U * e.c[2] + v[2]>>, T), "centre">>,
     <<Near(PointDist(e.got, P(e.c)), U * e.a, 3), "touches">>, <<Outside(e.got, P(e.c), T), "contains-centre">>, <<Leaving(e), "far-side">> >>
\* a list of boxes is moved by the largest of the vectors
Equal(e) ==
  LET v == Sub(e.got[1][1], P(e.boxes[1].ps[1])) IN
  << <<\A k \in DOMAIN e.boxes : \A i \in DOMAIN e.boxes[k].ps : NearPt(Sub(e.got[k][i], P(e.boxes[k].ps[i])), v, T), "same-vector">>, <<Along(v, e.d), "direction">>,
     <<e.kind = "circle" \/ Near(Dot(v, e.d), U * MaxOf({LineShift(e.boxes[k].ps, e.boxes[k].c, e.a, e.d) : k \in DOMAIN e.boxes}), 2 * T * N(e.d)), "largest-distance">>,
     <<e.kind = "line" \/ \A k \in DOMAIN e.boxes : Outside(e.got[k], P(e.boxes[k].c), T), "contains-centre">>,
     <<e.kind = "line" \/ \A k \in DOMAIN e.boxes : PointDist(e.got[k], P(e.boxes[k].c)) >= U * e.a - 3, "inside-circle">>,
     <<e.kind = "line" \/ \E k \in DOMAIN e.boxes : Near(PointDist(e.got[k], P(e.boxes[k].c)), U * e.a, 3), "touches">> >>
Tile(e) ==
  \* in hundredths of points times N(d)
  LET ext == MaxOf({Extent(e.boxes[k].ps, e.d) : k \in DOMAIN e.boxes}) step == U * (ext + e.a * N(e.d)) v(k) == Sub(e.got[k][1], P(e.boxes[k].ps[1])) IN
  << <<\A k \in DOMAIN e.boxes : \A i \in DOMAIN e.boxes[k].ps : NearPt(Sub(e.got[k][i], P(e.boxes[k].ps[i])), v(k), T), "shape">>,
     <<\A k \in DOMAIN e.boxes : Along(v(k), e.d), "direction">>, <<\A k \in DOMAIN e.boxes : Near(Dot(v(k), e.d), (k - 1) * step, 2 * T * N(e.d)), "spacing">>,
     <<Near(e.delta * N(e.d), step, 2 * T * N(e.d)), "distance-returned">> >>
TStep(s, e) ==
  CASE e.k = "distance" -> \* boxes which overlap have no distance
         LET a == Scaled(e.boxes[1].ps) b == Scaled(e.boxes[2].ps) IN
         IF Apart(a, b, 10) THEN Clauses(s, << <<e.failed = "", "refused">>, <<e.failed # "" \/ Near(e.got, BoxDist(a, b), 3), "distance">> >>)
         ELSE IF Apart(a, b, -10) THEN Ok(s) ELSE Clauses(s, << <<e.failed = "BoxCrossError", "overlapping-boxes">> >>)
    [] e.failed # "" -> Bad(s, "refused")
    [] e.k = "line" -> Clauses(s, Line(e))
    [] e.k = "circle" -> Clauses(s, Circle(e))
    [] e.k = "equal" -> Clauses(s, Equal(e))
    [] e.k = "tile" -> Clauses(s, Tile(e))
    [] e.k = "measure" -> Clauses(s, << <<Near(e.extent * N(e.d), U * Extent(e.ps, e.d), T * N(e.d)), "extent">>, <<Inside(Scaled(e.ps), P(e.p), -T) \/ Near(e.dist, PointDist(Scaled(e.ps), P(e.p)), 3), "point-distance">>,
                                        <<e.box = <<U * Low(e.ps, <<1, 0>>), U * Low(e.ps, <<0, 1>>), U * High(e.ps, <<1, 0>>), U * High(e.ps, <<0, 1>>)>>, "bounding-box">>, <<e.outline = Scaled(e.ps), "outline">>,
                                        <<e.same = Scaled(e.ps), "queries-move">> >>)
    [] OTHER -> \* transformation by an integer matrix, absolute or relative to the centre
         LET M(p) == IF e.rel THEN <<e.c[1] + e.m[1] * (p[1] - e.c[1]) + e.m[2] * (p[2] - e.c[2]) + e.m[5], e.c[2] + e.m[3] * (p[1] - e.c[1]) + e.m[4] * (p[2] - e.c[2]) + e.m[6]>>
                     ELSE <<e.m[1] * p[1] + e.m[2] * p[2] + e.m[5], e.m[3] * p[1] + e.m[4] * p[2] + e.m[6]>> IN
         Clauses(s, << <<\A i \in DOMAIN e.ps : NearPt(e.got[i], P(M(e.ps[i])), T), "corners">>, <<NearPt(e.gotc, P(IF e.keep THEN e.c ELSE M(e.c)), T), "centre">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
