------------------------------ MODULE Connector ------------------------------
(* Connectors between two boxes: lines, two lines, arcs and curves. Recorded numbers are 1/20.               *)
EXTENDS Boxes
T == 2
\* p is on the outline
OnOutline(ps, p, t) == \E i \in DOMAIN ps : LET a == ps[i] b == Nxt(ps, i) g == Sub(b, a) IN
   /\ Abs(Cross(g, Sub(p, a))) <= t * (Abs(g[1]) + Abs(g[2]))
   /\ Dot(g, Sub(p, a)) >= -t * (Abs(g[1]) + Abs(g[2])) /\ Dot(g, Sub(p, b)) <= t * (Abs(g[1]) + Abs(g[2]))
\* p is moved by r / N(d) along d
Step(p, d, r) == LET n == N(d) IN <<p[1] + (r * d[1]) \div n, p[2] + (r * d[2]) \div n>>
\* a straight piece from a to b runs along d
Runs(a, b, d, t) == Abs(Cross(Sub(b, a), d)) <= t * (Abs(d[1]) + Abs(d[2])) /\ Dot(Sub(b, a), d) >= 0
\* the ends of a connector whose first (last) line has direction d1 (d2) and is shortened by r1 (r2)
Begins(e, p, d1) == OnOutline(e.b1, Step(p, d1, -e.dist[1]), T)
Ends(e, p, d2) == OnOutline(e.b2, Step(p, d2, e.dist[2]), T)
\* ... and those of a bent one: plain are points of the connector which is not shortened
Shortened(e) == e.plain = <<>> \/ LET n == Len(e.points) IN
   /\ Abs(Hypot(Sub(e.points[1], e.plain[1])) - e.dist[1]) <= T /\ Abs(Hypot(Sub(e.points[n], e.plain[n])) - e.dist[2]) <= T
At(e) == IF e.plain = <<>> THEN e.points ELSE e.plain
Free(e) == \A i \in DOMAIN e.points : Outside(e.b1, e.points[i], T) /\ Outside(e.b2, e.points[i], T)
LineOk(e) ==
  LET a == e.nodes[1] b == e.nodes[Len(e.nodes)] d == Sub(e.c2, e.c1) IN
  << <<Len(e.nodes) = 2, "pieces">>, <<Runs(a, b, d, T) /\ Runs(e.c1, a, d, T) /\ Runs(b, e.c2, d, T), "between-centres">>,
     <<Begins(e, a, d), "first-outline">>, <<Ends(e, b, d), "second-outline">>, <<Free(e), "enters-box">> >>
\* two lines which meet at m
TwoOk(e) ==
  LET n == Len(e.nodes) a == e.nodes[1] b == e.nodes[n] d == Sub(e.m, e.c1) f == Sub(e.c2, e.m) IN
  << <<n = 3, "pieces">>, <<n # 3 \/ (Abs(e.nodes[2][1] - e.m[1]) <= T /\ Abs(e.nodes[2][2] - e.m[2]) <= T), "middle">>,
     <<Runs(a, e.m, d, T) /\ Runs(e.c1, a, d, T), "first-line">>, <<Runs(e.m, b, f, T) /\ Runs(b, e.c2, f, T), "second-line">>,
     <<Begins(e, a, d), "first-outline">>, <<Ends(e, b, f), "second-outline">>, <<Free(e), "enters-box">> >>
\* an arc through both centres; bulge is the distance of its highest point from the line (positive: to the left), times 20
\* the distance of any of its points from the centre is R
Left(v) == <<-v[2], v[1]>>
ArcOk(e) ==
  LET d == Sub(e.c2, e.c1) n == N(d) h == Abs(e.bulge) s == IF e.bulge < 0 THEN -1 ELSE 1
      R == (h + (n * n) \div (4 * h)) \div 2
      mid == <<(e.c1[1] + e.c2[1]) \div 2, (e.c1[2] + e.c2[2]) \div 2>>
      o == <<mid[1] + (s * (h - R) * Left(d)[1]) \div n, mid[2] + (s * (h - R) * Left(d)[2]) \div n>>
      side(p) == s * Dot(Sub(p, e.c1), Left(d)) >= -T * n
  IN << <<\A i \in DOMAIN e.points : Abs(Hypot(Sub(e.points[i], o)) - R) <= 2 * T, "circle">>, <<\A i \in DOMAIN e.points : side(e.points[i]), "side">>,
        \* it turns monotonically around the centre of the circle
        <<\A i \in 1..Len(e.points) - 1 : s * Cross(Sub(e.points[i], o), Sub(e.points[i + 1], o)) <= 0, "order">>,
        <<OnOutline(e.b1, At(e)[1], 2 * T), "first-outline">>, <<OnOutline(e.b2, At(e)[Len(e.points)], 2 * T), "second-outline">>, <<Free(e), "enters-box">>, <<Shortened(e), "distance">> >>
\* a curve: begins at the first outline and ends at the second one; entire: its control points
CurveOk(e) ==
  << <<OnOutline(e.b1, At(e)[1], 2 * T), "first-outline">>, <<OnOutline(e.b2, At(e)[Len(e.points)], 2 * T), "second-outline">>, <<Free(e), "enters-box">>, <<Shortened(e), "distance">>,
     <<e.control = <<>> \/ (Len(e.control) = 4 /\ \A i \in 1..4 : Abs(e.control[i][1] - e.want[i][1]) <= T /\ Abs(e.control[i][2] - e.want[i][2]) <= T), "control-points">> >>
=============================================================================
