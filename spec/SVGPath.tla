------------------------------- MODULE SVGPath -------------------------------
(* SVG path data. A command is [c |-> letter, rel |-> BOOLEAN, a |-> arguments] (one group of arguments, integers). *)
(* Geometry in sixths of the unit: <<"m", p>>, <<"l", p>>, <<"c", p1, p2, p3>>, <<"a", points on the arc in order, end>>, <<"z">>. *)
EXTENDS Integers, Sequences
P(x, y) == <<6 * x, 6 * y>>
Plus(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Minus(p, q) == <<p[1] - q[1], p[2] - q[2]>>
\* between (third of the way from p to q, times k)
Third(p, q, k) == <<(3 * p[1] + k * (q[1] - p[1])) \div 3, (3 * p[2] + k * (q[2] - p[2])) \div 3>>
\* directions with exact coordinates, counter-clockwise: 5 * (cos, sin)
Dir == << <<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>, <<-4, -3>>, <<-3, -4>>, <<0, -5>>, <<3, -4>>, <<4, -3>> >>
D(i) == Dir[(i % 12) + 1]
\* an arc from direction i to direction j of an ellipse with radii rx and ry (multiples of 25), rotated by phi (5 * (cos, sin)); sw: towards larger angles
\* the arguments <<rx, ry, phi, large, sweep, x, y>> of the command follow from that
On(arc, i) == LET u == (arc.rx * D(i)[1]) \div 5 v == (arc.ry * D(i)[2]) \div 5 IN
              <<(arc.phi[1] * u - arc.phi[2] * v) \div 5, (arc.phi[2] * u + arc.phi[1] * v) \div 5>>
Span(arc) == IF arc.sw THEN (arc.j - arc.i) % 12 ELSE (arc.i - arc.j) % 12
Large(arc) == Span(arc) > 6
ArcEnd(arc) == Minus(On(arc, arc.j), On(arc, arc.i))
Via(arc) == [k \in 1..Span(arc) - 1 |-> Minus(On(arc, IF arc.sw THEN arc.i + k ELSE arc.i - k + 12), On(arc, arc.i))]
Times6(p) == <<6 * p[1], 6 * p[2]>>
----
\* st: current point, start of the subpath, last control points of a cubic and a quadratic curve (the current point if none), geometry,
\* open: the current subpath has been started explicitly
Start == [cur |-> <<0, 0>>, sub |-> <<0, 0>>, c3 |-> <<0, 0>>, c2 |-> <<0, 0>>, open |-> FALSE, geo |-> <<>>]
Abs(st, rel, x, y) == IF rel THEN Plus(st.cur, P(x, y)) ELSE P(x, y)
\* after a closed subpath the next one begins where that began
Begun(st) == IF st.open THEN st.geo ELSE Append(st.geo, <<"m", st.cur>>)
LineTo(st, p) == [cur |-> p, sub |-> st.sub, c3 |-> p, c2 |-> p, open |-> TRUE, geo |-> Append(Begun(st), <<"l", p>>)]
Cubic(st, p1, p2, p3) == [cur |-> p3, sub |-> st.sub, c3 |-> p2, c2 |-> p3, open |-> TRUE, geo |-> Append(Begun(st), <<"c", p1, p2, p3>>)]
Quad(st, q, p3) == [cur |-> p3, sub |-> st.sub, c3 |-> p3, c2 |-> q, open |-> TRUE, geo |-> Append(Begun(st), <<"c", Third(st.cur, q, 2), Third(p3, q, 2), p3>>)]
Mirror(st, c) == Minus(Plus(st.cur, st.cur), c)
Cmd(st, k) ==
  LET a == k.a IN
  CASE k.c = "M" -> LET p == Abs(st, k.rel, a[1], a[2]) IN [cur |-> p, sub |-> p, c3 |-> p, c2 |-> p, open |-> TRUE, geo |-> Append(st.geo, <<"m", p>>)]
    [] k.c = "L" -> LineTo(st, Abs(st, k.rel, a[1], a[2]))
    [] k.c = "H" -> LineTo(st, <<Abs(st, k.rel, a[1], 0)[1], st.cur[2]>>)
    [] k.c = "V" -> LineTo(st, <<st.cur[1], Abs(st, k.rel, 0, a[1])[2]>>)
    [] k.c = "C" -> Cubic(st, Abs(st, k.rel, a[1], a[2]), Abs(st, k.rel, a[3], a[4]), Abs(st, k.rel, a[5], a[6]))
    [] k.c = "S" -> Cubic(st, Mirror(st, st.c3), Abs(st, k.rel, a[1], a[2]), Abs(st, k.rel, a[3], a[4]))
    [] k.c = "Q" -> Quad(st, Abs(st, k.rel, a[1], a[2]), Abs(st, k.rel, a[3], a[4]))
    [] k.c = "T" -> Quad(st, Mirror(st, st.c2), Abs(st, k.rel, a[1], a[2]))
    \* the end of an arc is relative to its start here
    [] k.c = "A" -> LET p == Plus(st.cur, Times6(ArcEnd(k.arc))) IN
                    [cur |-> p, sub |-> st.sub, c3 |-> p, c2 |-> p, open |-> TRUE,
                     geo |-> Append(Begun(st), <<"a", [i \in DOMAIN Via(k.arc) |-> Plus(st.cur, Times6(Via(k.arc)[i]))], p>>)]
    [] k.c = "Z" -> [cur |-> st.sub, sub |-> st.sub, c3 |-> st.sub, c2 |-> st.sub, open |-> FALSE, geo |-> Append(st.geo, <<"z">>)]
=============================================================================
