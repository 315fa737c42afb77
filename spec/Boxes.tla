--------------------------------- MODULE Boxes ---------------------------------
(* Convex polygons (corners counterclockwise) with a centre; all sides parallel to an axis or to a 3-4-5          *)
(* triangle, so that lengths are integers. Directions d are multiples of such directions, N(d) is their length.   *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
N(d) == LET x == Abs(d[1]) y == Abs(d[2]) IN IF x = 0 \/ y = 0 THEN x + y ELSE IF 4 * x = 3 * y THEN 5 * (x \div 3) ELSE 5 * (x \div 4)
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
Nxt(ps, i) == ps[(i % Len(ps)) + 1]
\* extent of the corners in a direction (times the length of d)
High(ps, d) == MaxOf({Dot(ps[i], d) : i \in DOMAIN ps})
Low(ps, d) == MinOf({Dot(ps[i], d) : i \in DOMAIN ps})
Extent(ps, d) == High(ps, d) - Low(ps, d)
Moved(ps, v) == [i \in DOMAIN ps |-> <<ps[i][1] + v[1], ps[i][2] + v[2]>>]
\* line alignment moves along d until the box is just on the far side of the line at distance a from the centre; times N(d)
LineShift(ps, c, a, d) == a * N(d) + MaxOf({Dot(Sub(c, ps[i]), d) : i \in DOMAIN ps})
\* strictly inside
Inside(ps, p, slack) == \A i \in DOMAIN ps : LET g == Sub(Nxt(ps, i), ps[i]) IN Cross(g, Sub(p, ps[i])) > slack * (Abs(g[1]) + Abs(g[2]))
Outside(ps, p, slack) == ~Inside(ps, p, slack)
\* is the nearest point of the side [e, f] to p an inner point of the side?
OnSide(e, f, p) == LET g == Sub(f, e) IN Dot(g, Sub(p, e)) >= 0 /\ Dot(g, Sub(p, f)) <= 0
\* sqrt of an integer (rounded down)
RECURSIVE Root(_, _)
Root(x, r) == LET n == (r + x \div r) \div 2 IN IF n >= r THEN r ELSE Root(x, n)
Sqrt(x) == IF x = 0 THEN 0 ELSE Root(x, x)
Hypot(v) == Sqrt(v[1] * v[1] + v[2] * v[2])
\* distance of a point outside to a side: tolerance is about 1
SideDist(e, f, p) == LET g == Sub(f, e) IN IF g # <<0, 0>> /\ OnSide(e, f, p) THEN Abs(Cross(g, Sub(p, e))) \div Max(1, Hypot(g)) ELSE Min(Hypot(Sub(p, e)), Hypot(Sub(p, f)))
PointDist(ps, p) == MinOf({SideDist(ps[i], Nxt(ps, i), p) : i \in DOMAIN ps})
BoxDist(a, b) == Min(MinOf({PointDist(a, b[i]) : i \in DOMAIN b}), MinOf({PointDist(b, a[i]) : i \in DOMAIN a}))
\* a direction separates two boxes which do not overlap: one of the sides
Separated(a, b, gap) == \E i \in DOMAIN a : LET g == Sub(Nxt(a, i), a[i]) d == <<g[2], -g[1]>> IN Low(b, d) - High(a, d) > gap * Hypot(g)
\* (a line seen as a box has no sides at its ends)
Axes(a, b, gap) == \E d \in {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>} : Low(b, d) - High(a, d) > gap
Apart(a, b, gap) == Separated(a, b, gap) \/ Separated(b, a, gap) \/ Axes(a, b, gap)
Proper(a, b, c, d, slack) ==
  LET u == Sub(b, a) v == Sub(d, c) IN
  /\ (Cross(u, Sub(c, a)) > slack) # (Cross(u, Sub(d, a)) > slack) /\ (Cross(u, Sub(c, a)) < -slack) # (Cross(u, Sub(d, a)) < -slack)
  /\ (Cross(v, Sub(a, c)) > slack) # (Cross(v, Sub(b, c)) > slack) /\ (Cross(v, Sub(a, c)) < -slack) # (Cross(v, Sub(b, c)) < -slack)
=============================================================================
