--------------------------------- MODULE Poly ---------------------------------
(* Paths as polylines: sequences of subpaths [p |-> points, z |-> closed]; no point follows itself, the       *)
(* closing line is not listed. Coordinates and lengths are integers (1/60 of a unit); every segment is        *)
(* parallel to an axis or to a 3-4-5 triangle, so all lengths and all points used are integers.               *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Last(s) == s[Len(s)]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Dist(a, b) == LET x == Abs(a[1] - b[1]) y == Abs(a[2] - b[2]) IN IF x = 0 \/ y = 0 THEN x + y ELSE IF 4 * x = 3 * y THEN 5 * (x \div 3) ELSE 5 * (x \div 4)
RECURSIVE Dedupe(_)
Dedupe(ps) == IF Len(ps) < 2 THEN ps ELSE IF ps[1] = ps[2] THEN Dedupe(Tail(ps)) ELSE <<ps[1]>> \o Dedupe(Tail(ps))
\* all points of a subpath including the one the closing line returns to
Round(sub) == IF sub.z /\ Last(sub.p) # sub.p[1] THEN Append(sub.p, sub.p[1]) ELSE sub.p
NSeg(sub) == Len(Round(sub)) - 1
SegLen(sub, k) == Dist(Round(sub)[k], Round(sub)[k + 1])
SubLen(sub) == Sum([k \in 1..NSeg(sub) |-> SegLen(sub, k)])
Total(path) == Sum([i \in DOMAIN path |-> SubLen(path[i])])
\* ---- positions: <<subpath, segment, offset on the segment>>; segment 0 is the position on a mere point ------
RECURSIVE InSub(_, _, _)
InSub(sub, k, s) == IF k = NSeg(sub) \/ s < SegLen(sub, k) THEN <<k, s>> ELSE InSub(sub, k + 1, s - SegLen(sub, k))
RECURSIVE Locate(_, _, _)
Locate(path, i, s) ==
  IF i = Len(path) \/ s < SubLen(path[i])
  THEN (IF NSeg(path[i]) = 0 THEN <<i, 0, 0>> ELSE <<i>> \o InSub(path[i], 1, s)) ELSE Locate(path, i + 1, s - SubLen(path[i]))
Pos(path, s) == Locate(path, 1, s)
PointAt(path, q) ==
  LET sub == path[q[1]] IN
  IF q[2] = 0 THEN sub.p[1]
  ELSE LET a == Round(sub)[q[2]] b == Round(sub)[q[2] + 1] n == SegLen(sub, q[2]) IN
       <<a[1] + ((b[1] - a[1]) * q[3]) \div n, a[2] + ((b[2] - a[2]) * q[3]) \div n>>
At(path, s) == PointAt(path, Pos(path, s))
ArcLen(path, q) == Sum([i \in 1..q[1] - 1 |-> SubLen(path[i])]) + Sum([k \in 1..q[2] - 1 |-> SegLen(path[q[1]], k)]) + q[3]
Begin(path) == <<1, IF NSeg(path[1]) = 0 THEN 0 ELSE 1, 0>>
End(path) == LET s == Last(path) IN <<Len(path), NSeg(s), IF NSeg(s) = 0 THEN 0 ELSE SegLen(s, NSeg(s))>>
Dir(path, q) == LET sub == path[q[1]] a == Round(sub)[q[2]] b == Round(sub)[q[2] + 1] n == SegLen(sub, q[2]) IN <<((b[1] - a[1]) * 60) \div n, ((b[2] - a[2]) * 60) \div n>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
\* ---- operations -----------------------------------------------------------------------------------------------
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
RevSub(sub) == IF sub.z THEN [sub EXCEPT !.p = <<sub.p[1]>> \o Rev(Tail(IF Last(sub.p) = sub.p[1] /\ Len(sub.p) > 1 THEN SubSeq(sub.p, 1, Len(sub.p) - 1) ELSE sub.p))] ELSE [sub EXCEPT !.p = Rev(@)]
Reversed(path) == Rev([i \in DOMAIN path |-> RevSub(path[i])])
CanJoin(a, b) == a # <<>> /\ b # <<>> /\ ~Last(a).z /\ ~b[1].z
Joined(a, b) == SubSeq(a, 1, Len(a) - 1) \o <<[p |-> Dedupe(Last(a).p \o b[1].p), z |-> FALSE]>> \o Tail(b)
Transform(path, m) == [i \in DOMAIN path |-> [path[i] EXCEPT !.p = [j \in DOMAIN @ |-> <<m[1] * @[j][1] + m[2] * @[j][2] + m[5], m[3] * @[j][1] + m[4] * @[j][2] + m[6]>>]]]
\* the points of a subpath between two positions on it (a is not behind b)
Between(path, a, b) == Dedupe(<<PointAt(path, a)>> \o SubSeq(Round(path[a[1]]), a[2] + 1, b[2]) \o <<PointAt(path, b)>>)
SubBegin(path, i) == <<i, IF NSeg(path[i]) = 0 THEN 0 ELSE 1, 0>>
SubEnd(path, i) == <<i, NSeg(path[i]), IF NSeg(path[i]) = 0 THEN 0 ELSE SegLen(path[i], NSeg(path[i]))>>
Open(ps) == [p |-> ps, z |-> FALSE]
\* the pieces of one subpath cut at cs (at least one)
Pieces(path, i, cs) ==
  LET n == Len(cs)
      inner == [j \in 1..n - 1 |-> Open(Between(path, cs[j], cs[j + 1]))]
      first == Between(path, SubBegin(path, i), cs[1])
      last == Between(path, cs[n], SubEnd(path, i))
  \* a closed subpath is opened by its first cut
  IN IF path[i].z THEN <<Open(Dedupe(last \o first))>> \o inner ELSE <<Open(first)>> \o inner \o <<Open(last)>>
RECURSIVE SplitFrom(_, _, _, _, _)
\* acc: pieces up to subpath i - 1; the piece k still grows: it contains the end of what has been split
SplitFrom(path, cuts, i, acc, k) ==
  IF i > Len(path) THEN acc
  ELSE LET cs == SelectSeq(cuts, LAMBDA c : c[1] = i)
           grow(x) == [acc EXCEPT ![k] = Append(@, x)]
       IN IF cs = <<>> THEN SplitFrom(path, cuts, i + 1, grow(path[i]), k)
          ELSE LET ps == Pieces(path, i, cs) IN
               SplitFrom(path, cuts, i + 1, grow(ps[1]) \o [j \in 1..Len(ps) - 1 |-> <<ps[j + 1]>>], IF path[i].z THEN k ELSE Len(acc) + Len(ps) - 1)
Split(path, cuts) == SplitFrom(path, cuts, 1, << <<>> >>, 1)
\* a path up to the representation of closed subpaths whose last line is explicit
Canon(path) == [i \in DOMAIN path |-> LET p == Dedupe(path[i].p) IN [p |-> IF path[i].z /\ Len(p) > 1 /\ Last(p) = p[1] THEN SubSeq(p, 1, Len(p) - 1) ELSE p, z |-> path[i].z]]
NearPt(a, b, t) == Abs(a[1] - b[1]) <= t /\ Abs(a[2] - b[2]) <= t
Same(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].z = b[i].z /\ Len(a[i].p) = Len(b[i].p) /\ \A j \in DOMAIN a[i].p : NearPt(a[i].p[j], b[i].p[j], t)
=============================================================================
