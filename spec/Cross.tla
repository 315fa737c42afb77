--------------------------------- MODULE Cross ---------------------------------
(* Crossings of polylines with integer points, in exact rational arithmetic. A path is a sequence of subpaths   *)
(* [p |-> points, z |-> closed]. A crossing is a pair of positions <<subpath, segment - 1, num, den>>, i.e. the   *)
(* position num / den (in [0, 1]) on a segment; the end of a segment is written as the beginning of the next one. *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Pts(sub) == IF sub.z THEN Append(sub.p, sub.p[1]) ELSE sub.p
NSeg(sub) == Len(Pts(sub)) - 1
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Det(u, v) == u[1] * v[2] - u[2] * v[1]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Red(n, d) == LET s == IF d < 0 THEN -1 ELSE 1 g == Gcd(Abs(n), Abs(d)) IN <<(s * n) \div g, (s * d) \div g>>
In01(f) == f[1] >= 0 /\ f[1] <= f[2]
\* segments <<begin, end>>
Seg(sub, k) == <<Pts(sub)[k], Pts(sub)[k + 1]>>
Hit(s, t) ==  \* <<>> or <<parameter on s, parameter on t>>
  LET u == Sub(s[2], s[1]) v == Sub(t[2], t[1]) w == Sub(t[1], s[1]) d == Det(u, v) IN
  IF d = 0 THEN <<>> ELSE LET x == Red(Det(w, v), d) y == Red(Det(w, u), d) IN IF In01(x) /\ In01(y) THEN <<x, y>> ELSE <<>>
\* parallel segments which touch each other have no well-defined crossings
Between(p, s) == (p[1] - s[1][1]) * (p[1] - s[2][1]) <= 0 /\ (p[2] - s[1][2]) * (p[2] - s[2][2]) <= 0
Overlap(s, t) == LET u == Sub(s[2], s[1]) IN Det(u, Sub(t[2], t[1])) = 0 /\ Det(u, Sub(t[1], s[1])) = 0 /\ (Between(t[1], s) \/ Between(t[2], s) \/ Between(s[1], t) \/ Between(s[2], t))
Segs(path) == UNION {{<<i, k>> : k \in 1..NSeg(path[i])} : i \in DOMAIN path}
General(a, b) == \A x \in Segs(a), y \in Segs(b) : ~Overlap(Seg(a[x[1]], x[2]), Seg(b[y[1]], y[2]))
Norm(path, i, k, f) == IF f[1] = f[2] /\ (k < NSeg(path[i]) \/ path[i].z) THEN <<i, k % NSeg(path[i]), 0, 1>> ELSE <<i, k - 1, f[1], f[2]>>
Crossings(a, b) ==
  LET hits == {<<x, y>> \in Segs(a) \X Segs(b) : Hit(Seg(a[x[1]], x[2]), Seg(b[y[1]], y[2])) # <<>>}
      pos(h) == LET f == Hit(Seg(a[h[1][1]], h[1][2]), Seg(b[h[2][1]], h[2][2])) IN <<Norm(a, h[1][1], h[1][2], f[1]), Norm(b, h[2][1], h[2][2], f[2])>>
  IN {pos(h) : h \in hits}
\* the point of a position times its denominator
PointOf(path, q) == LET s == Seg(path[q[1]], q[2] + 1) IN <<s[1][1] * q[4] + (s[2][1] - s[1][1]) * q[3], s[1][2] * q[4] + (s[2][2] - s[1][2]) * q[3]>>
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ (p[2] < q[2] \/ (p[2] = q[2] /\ p[3] * q[4] <= q[3] * p[4])))
Interior(c) == c[1][3] # 0 /\ c[1][3] # c[1][4] /\ c[2][3] # 0 /\ c[2][3] # c[2][4]
=============================================================================
