-------------------------------- MODULE Part --------------------------------
(* Axis partitions.  All positions are integers in a unit fixed by the scenario.  A partition is an *)
(* ordered sequence of [p, t, l]: position, tick level and label level (-1: none).                  *)
EXTENDS Integers, Sequences, FiniteSets
FloorDiv(a, d) == IF a >= 0 THEN a \div d ELSE -((-a + d - 1) \div d)
CeilDiv(a, d) == -FloorDiv(-a, d)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

\* ---- linear: the multiples of a distance ---------------------------------------------------------
LinSet(lo, hi, d) == {i * d : i \in CeilDiv(lo, d)..FloorDiv(hi, d)}
LinExt(r, d, fmin, fmax) == <<IF fmin THEN FloorDiv(r[1], d) * d ELSE r[1], IF fmax THEN CeilDiv(r[2], d) * d ELSE r[2]>>

\* ---- logarithmic: the positions f * b^j (f: mantissas, increasing, f < b * first f), j >= 0 --------
RECURSIVE Pow(_, _), LogUp(_, _, _, _)
Pow(b, j) == IF j = 0 THEN 1 ELSE b * Pow(b, j - 1)
LogUp(x, b, lo, hi) == IF x > hi THEN {} ELSE (IF x >= lo THEN {x} ELSE {}) \cup (IF x > hi \div b THEN {} ELSE LogUp(x * b, b, lo, hi))
LogSet(lo, hi, pre) == UNION {LogUp(pre.f[i], pre.b, lo, hi) : i \in DOMAIN pre.f}
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
LogExt(r, pre, fmin, fmax) == <<IF fmin THEN SetMax(LogSet(1, r[1], pre)) ELSE r[1],
                                IF fmax THEN SetMin(LogSet(r[2], r[2] * pre.b, pre)) ELSE r[2]>>

\* ---- a partition out of the sets of positions of its levels ----------------------------------------
LevelOf(ss, x) == IF \E i \in DOMAIN ss : x \in ss[i] THEN SetMin({i \in DOMAIN ss : x \in ss[i]}) - 1 ELSE -1
RECURSIVE Ord(_, _, _)
Ord(S, ts, ls) == IF S = {} THEN <<>> ELSE LET x == SetMin(S) IN <<[p |-> x, t |-> LevelOf(ts, x), l |-> LevelOf(ls, x)]>> \o Ord(S \ {x}, ts, ls)
Union(ss) == UNION {ss[i] : i \in DOMAIN ss}
Partition(ts, ls) == Ord(Union(ts) \cup Union(ls), ts, ls)

\* lists of tick and label distances (or mantissas); none: <<>> given as an optional value
Ticks(c) == IF c.ticks = <<>> THEN <<c.labels[1][1]>> ELSE c.ticks[1]
Labels(c) == IF c.labels = <<>> THEN <<c.ticks[1][1]>> ELSE c.labels[1]
Extended(c, Ext(_, _, _, _)) ==
  LET r1 == IF c.et >= 0 /\ c.et < Len(Ticks(c)) THEN Ext(<<c.min, c.max>>, Ticks(c)[c.et + 1], c.fmin, c.fmax) ELSE <<c.min, c.max>>
  IN IF c.el >= 0 /\ c.el < Len(Labels(c)) THEN Ext(r1, Labels(c)[c.el + 1], c.fmin, c.fmax) ELSE r1
LinPart(c) == LET r == Extended(c, LinExt)
              IN Partition([i \in DOMAIN Ticks(c) |-> LinSet(r[1], r[2], Ticks(c)[i])], [i \in DOMAIN Labels(c) |-> LinSet(r[1], r[2], Labels(c)[i])])
LogPart(c) == LET r == Extended(c, LogExt)
              IN Partition([i \in DOMAIN Ticks(c) |-> LogSet(r[1], r[2], Ticks(c)[i])], [i \in DOMAIN Labels(c) |-> LogSet(r[1], r[2], Labels(c)[i])])
=============================================================================
