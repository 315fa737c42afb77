------------------------------ MODULE CrossTrace ------------------------------
(* P04: recorded intersections. Points are recorded in 1/1000, parameters in 1/100000. *)
EXTENDS TraceLib, Cross
VARIABLES tid, l, st, err
Near(x, y, t) == x - y <= t /\ y - x <= t
\* the recorded position g = [s, x] (subpath, parameter) and point g.pt is the position q
At(path, q, g, uniform) ==
  LET n == NSeg(path[q[1]]) w == PointOf(path, q) IN
  /\ g.s = q[1]
  /\ Near(g.pt[1] * q[4], w[1] * 1000, 3 * q[4]) /\ Near(g.pt[2] * q[4], w[2] * 1000, 3 * q[4])
  /\ LET near(x) == IF uniform THEN Near(x * q[4], (q[2] * q[4] + q[3]) * 100000, 20 * q[4]) ELSE x >= q[2] * 100000 - 300 /\ x <= (q[2] + 1) * 100000 + 300
     IN near(g.x) \/ (path[q[1]].z /\ (near(g.x - n * 100000) \/ near(g.x + n * 100000)))
Match(e, c, i) == At(e.a, c[1], e.got[i][1], e.uniform) /\ At(e.b, c[2], e.got[i][2], e.uniform)
\* along each subpath of the first path for each subpath of the second one
Ordered(g) == \A i \in 1..Len(g) - 1 : LET x == g[i] y == g[i + 1] IN
  x[1].s < y[1].s \/ (x[1].s = y[1].s /\ (x[2].s < y[2].s \/ (x[2].s = y[2].s /\ x[1].x <= y[1].x)))
Judge(s, e) ==
  IF ~General(e.a, e.b) THEN Ok(s)
  ELSE IF e.failed # "" THEN Bad(s, "refused")
  ELSE LET cs == Crossings(e.a, e.b) IN
       Clauses(s, << <<\A c \in cs : \E i \in DOMAIN e.got : Match(e, c, i), "crossing-missed">>,
                     <<\A i \in DOMAIN e.got : \E c \in cs : Match(e, c, i), "no-crossing-there">>,
                     <<Len(e.got) = Cardinality(cs), "crossing-repeated">>,
                     <<Ordered(e.got), "order">>,
                     <<Len(e.swapped) = Len(e.got) /\ \A c \in cs : \E i \in DOMAIN e.swapped : At(e.b, c[2], e.swapped[i][1], e.uniform) /\ At(e.a, c[1], e.swapped[i][2], e.uniform), "swapped">> >>)
\* a circle of radius 5 r around c and polylines parallel to the axes whose distances from c are multiples of 3 r, 4 r or larger than 5 r
Half(r, d) == IF Abs(d) = 3 * r THEN {4 * r, -4 * r} ELSE IF Abs(d) = 4 * r THEN {3 * r, -3 * r} ELSE IF d = 0 THEN {5 * r, -5 * r} ELSE {}
OnSeg(sg, c, r) == IF sg[1][1] = sg[2][1] THEN {<<sg[1][1], c[2] + y>> : y \in Half(r, sg[1][1] - c[1])} ELSE {<<c[1] + x, sg[1][2]>> : x \in Half(r, sg[1][2] - c[2])}
RoundHits(e) == UNION {LET sg == Seg(e.a[x[1]], x[2]) IN {<<x, p>> : p \in {p \in OnSeg(sg, e.c, e.r) : Between(p, sg)}} : x \in Segs(e.a)}
Circle(s, e) ==
  IF e.failed # "" THEN Bad(s, "refused")
  ELSE LET hs == RoundHits(e) on(g, x) == g.s = x[1] /\ g.x >= (x[2] - 1) * 100000 - 300 /\ g.x <= x[2] * 100000 + 300
           pt(g, p) == Near(g.pt[1], 1000 * p[1], 12 * e.r) /\ Near(g.pt[2], 1000 * p[2], 12 * e.r) IN
       Clauses(s, << <<\A h \in hs : \E i \in DOMAIN e.got : on(e.got[i][1], h[1]) /\ pt(e.got[i][1], h[2]) /\ pt(e.got[i][2], h[2]), "crossing-missed">>,
                     <<\A i \in DOMAIN e.got : \E h \in hs : on(e.got[i][1], h[1]) /\ pt(e.got[i][1], h[2]), "no-crossing-there">>,
                     <<Len(e.got) = Cardinality(hs), "crossing-repeated">> >>)
\* arbitrary curves: the reported positions are the same points, in order, and the same when swapped
Law(s, e) ==
  IF e.failed # "" THEN Bad(s, "refused")
  ELSE Clauses(s, << <<\A i \in DOMAIN e.got : Near(e.got[i][1].pt[1], e.got[i][2].pt[1], 3) /\ Near(e.got[i][1].pt[2], e.got[i][2].pt[2], 3), "different-points">>,
                     <<Ordered(e.got), "order">>,
                     <<Len(e.swapped) = Len(e.got) /\ \A i \in DOMAIN e.got : \E j \in DOMAIN e.swapped : Near(e.got[i][1].pt[1], e.swapped[j][1].pt[1], 5) /\ Near(e.got[i][1].pt[2], e.swapped[j][1].pt[2], 5), "swapped">>,
                     <<e.closed = 0 \/ Len(e.got) % 2 = 0 \/ e.tangent, "odd-number">> >>)
TStep(s, e) == CASE e.k = "cross" -> Judge(s, e) [] e.k = "circle" -> Circle(s, e) [] e.k = "law" -> Law(s, e)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
