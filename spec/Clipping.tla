------------------------------ MODULE Clipping ------------------------------
(* The visible parts of a line through data points in a graph which shows lo..hi in each dimension. *)
(* A point is a sequence of integers, <<>> for an invalid one.  Points of the result are sequences   *)
(* of reduced fractions <<n, d>>, d > 0.                                                              *)
EXTENDS Frac, FiniteSets
Inside(p, lo, hi) == p # <<>> /\ \A i \in DOMAIN p : lo <= p[i] /\ p[i] <= hi
\* the parameter range of the connection a--b which is inside: [e |-> empty, f, t]
RECURSIVE Part(_, _, _, _, _, _, _)
Part(a, b, lo, hi, i, f, t) ==
  IF i > Len(a) THEN [e |-> ~LeqF(f, t), f |-> f, t |-> t]
  ELSE IF a[i] = b[i] THEN (IF lo <= a[i] /\ a[i] <= hi THEN Part(a, b, lo, hi, i + 1, f, t) ELSE [e |-> TRUE, f |-> f, t |-> t])
  ELSE LET u == Fr(lo - a[i], b[i] - a[i])
           v == Fr(hi - a[i], b[i] - a[i])
       IN Part(a, b, lo, hi, i + 1, MaxF(f, MinF(u, v)), MinF(t, MaxF(u, v)))
Vis(a, b, lo, hi) == Part(a, b, lo, hi, 1, <<0, 1>>, <<1, 1>>)
PointAt(a, b, t) == [i \in DOMAIN a |-> Fr(a[i] * t[2] + (b[i] - a[i]) * t[1], t[2])]
Ends(a) == [i \in DOMAIN a |-> <<a[i], 1>>]
\* consecutive equal points carry nothing; a single point is no line
RECURSIVE Dedup(_)
Dedup(c) == IF Len(c) <= 1 THEN c ELSE IF c[1] = c[2] THEN Dedup(Tail(c)) ELSE <<c[1]>> \o Dedup(Tail(c))
Flush(out, cur) == LET d == Dedup(cur) IN IF Len(d) > 1 THEN Append(out, d) ELSE out
RECURSIVE Walk(_, _, _, _, _, _)
Walk(ps, i, lo, hi, cur, out) ==
  IF i > Len(ps) THEN Flush(out, cur)
  ELSE IF ps[i] = <<>> THEN Walk(ps, i + 1, lo, hi, <<>>, Flush(out, cur))
  ELSE IF i = 1 \/ ps[i - 1] = <<>> THEN Walk(ps, i + 1, lo, hi, IF Inside(ps[i], lo, hi) THEN <<Ends(ps[i])>> ELSE <<>>, out)
  ELSE LET a == ps[i - 1]
           v == Vis(a, ps[i], lo, hi)
       IN IF v.e THEN Walk(ps, i + 1, lo, hi, <<>>, Flush(out, cur))
          ELSE LET p0 == PointAt(a, ps[i], v.f)
                   p1 == PointAt(a, ps[i], v.t)
                   on == v.f[1] = 0 /\ cur # <<>>
                   c == IF on THEN Append(cur, p1) ELSE <<p0, p1>>
                   o == IF on THEN out ELSE Flush(out, cur)
               IN IF v.t = <<1, 1>> THEN Walk(ps, i + 1, lo, hi, c, o) ELSE Walk(ps, i + 1, lo, hi, <<>>, Flush(o, c))
Lines(ps, lo, hi) == Walk(ps, 1, lo, hi, <<>>, <<>>)
Symbols(ps, lo, hi) == SelectSeq(ps, LAMBDA p : Inside(p, lo, hi))
=============================================================================
