--------------------------------- MODULE Deco ---------------------------------
(* Decorated paths: what is filled and stroked and where the arrows and texts are. Units of Poly (1/60).        *)
(* An arrow is [t |-> "arrow", pos (quarters), rev, size, cons (halves; 0: none), fill, stroke]; its opening      *)
(* angle is 2 arctan(3/4).                                                                                      *)
EXTENDS Poly
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
ConLen(a) == LET c == IF a.cons = 0 THEN 2 ELSE a.cons IN (((a.size * c) \div 2) * 4) \div 5
Dirn(a) == IF a.rev THEN -1 ELSE 1
\* the arc length at which the tip is: the arrow moves along the path without leaving it
Tip(path, a) == (IF a.rev THEN 0 ELSE ConLen(a)) + (a.pos * (Total(path) - ConLen(a))) \div 4
TailAt(path, a) == Tip(path, a) - Dirn(a) * a.size

Template(path, a) ==
  LET t == Pos(path, Tip(path, a)) e == Pos(path, TailAt(path, a)) IN
  IF a.rev THEN Between(path, t, e) ELSE Rev(Between(path, e, t))
OneSub(path, a) == Pos(path, Tip(path, a))[1] = Pos(path, TailAt(path, a))[1]
\* rotated about t; in 1/5 units
Rot(p, t, s) == LET x == p[1] - t[1] y == p[2] - t[2] IN <<5 * t[1] + 4 * x - 3 * s * y, 5 * t[2] + 3 * s * x + 4 * y>>
Head5(path, a) ==
  LET tm == Template(path, a) t == tm[1] l == [i \in DOMAIN tm |-> Rot(tm[i], t, -1)] r == [i \in DOMAIN tm |-> Rot(tm[i], t, 1)]
      c == At(path, Tip(path, a) - Dirn(a) * ConLen(a))
  IN Rev(l) \o Tail(r) \o (IF a.cons = 0 THEN <<>> ELSE <<<<5 * c[1], 5 * c[2]>>>>)
\* the parts of the path which are not stroked
Hides(a) == a.t = "arrow" /\ ((a.pos = 0 /\ a.rev) \/ (a.pos = 4 /\ ~a.rev))
Range(path, a) == LET c == Min(a.size, ConLen(a)) IN IF a.rev THEN <<0, c>> ELSE <<Total(path) - c, Total(path)>>
Front(path, items) == LET h == {i \in DOMAIN items : Hides(items[i]) /\ items[i].rev} IN IF h = {} THEN 0 ELSE LET m == CHOOSE m \in h : \A i \in h : Range(path, items[i])[2] <= Range(path, items[m])[2] IN Range(path, items[m])[2]
Back(path, items) == LET h == {i \in DOMAIN items : Hides(items[i]) /\ ~items[i].rev} IN IF h = {} THEN Total(path) ELSE LET m == CHOOSE m \in h : \A i \in h : Range(path, items[i])[1] >= Range(path, items[m])[1] IN Range(path, items[m])[1]
\* what is left of a path if the intervals of arc lengths in rs (sorted, apart) are taken out
StartOf(path, i) == Sum([j \in 1..i - 1 |-> SubLen(path[j])])
EndOf(path, i) == StartOf(path, i + 1)
InsidePos(path, i, s) == IF s = EndOf(path, i) THEN SubEnd(path, i) ELSE <<i>> \o InSub(path[i], 1, s - StartOf(path, i))
\* the intervals left of subpath i
Kept(path, i, rs) ==
  LET lo(k) == IF k = 0 THEN StartOf(path, i) ELSE Max(StartOf(path, i), Min(EndOf(path, i), rs[k][2]))
      hi(k) == IF k = Len(rs) THEN EndOf(path, i) ELSE Max(StartOf(path, i), Min(EndOf(path, i), rs[k + 1][1]))
  IN SelectSeq([k \in 1..Len(rs) + 1 |-> <<lo(k - 1), hi(k - 1)>>], LAMBDA x : x[1] < x[2])
KeptSub(path, i, rs) ==
  LET ks == Kept(path, i, rs) n == Len(ks)
      piece(x) == Between(path, InsidePos(path, i, x[1]), InsidePos(path, i, x[2]))
  IN IF ks = <<<<StartOf(path, i), EndOf(path, i)>>>> THEN <<path[i]>>
     ELSE IF path[i].z /\ n > 1 /\ ks[1][1] = StartOf(path, i) /\ ks[n][2] = EndOf(path, i)
     \* a closed subpath is open where something is left out only
     THEN <<Open(Dedupe(piece(ks[n]) \o piece(ks[1])))>> \o [k \in 1..n - 2 |-> Open(piece(ks[k + 1]))]
     ELSE [k \in 1..n |-> Open(piece(ks[k]))]
RECURSIVE Without(_, _, _)
Without(path, i, rs) == IF i > Len(path) THEN <<>> ELSE KeptSub(path, i, rs) \o Without(path, i + 1, rs)
\* intervals in any order which may overlap, as sorted disjoint intervals
RECURSIVE Merged(_)
Merged(rs) ==
  IF rs = {} THEN <<>>
  ELSE LET m == CHOOSE m \in rs : \A r \in rs : m[1] <= r[1]
           RECURSIVE Reach(_)
           Reach(e) == LET g == {r \in rs : r[1] <= e /\ r[2] > e} IN IF g = {} THEN e ELSE Reach((CHOOSE r \in g : TRUE)[2])
           e == Reach(m[2])
       IN <<<<m[1], e>>>> \o Merged({r \in rs : r[1] > e})
EndPos(path, s) == IF s = Total(path) THEN End(path) ELSE Pos(path, s)
Stroked(path, items) == Without(path, 1, Merged({Range(path, items[i]) : i \in {i \in DOMAIN items : Hides(items[i])}}))
\* the center of a text box of size w x h: it touches the line at distance dist from its position (direction dir / 5)
TextPos(path, x) == CASE x.mode = "begin" -> x.v [] x.mode = "end" -> Total(path) - x.v [] OTHER -> (x.v * Total(path)) \div 4
TextDir(path, x) == IF x.rel THEN LET d == Dir(path, Pos(path, TextPos(path, x))) IN <<(d[1] * x.dir[1] - d[2] * x.dir[2]) \div 60, (d[2] * x.dir[1] + d[1] * x.dir[2]) \div 60>> ELSE x.dir
\* in 1/50 units; dir is given in 1/5
Center50(path, x) ==
  LET p == At(path, TextPos(path, x)) d == TextDir(path, x) ext == 10 * x.dist + (Abs(d[1]) * x.w + Abs(d[2]) * x.h) IN
  <<50 * p[1] + d[1] * ext, 50 * p[2] + d[2] * ext>>
=============================================================================
