------------------------------- MODULE PartMC -------------------------------
(* All small single partitions, linear (unit 1/12) and logarithmic (unit 1/100, 1/16).              *)
EXTENDS Part, TLC, Json
CONSTANTS Mode, Big
VARIABLE c
None == <<>>
LinDists == {<<12>>, <<4>>, <<30, 15>>, <<8, 4, 2>>} \cup (IF Big THEN {<<3>>, <<18, 6>>, <<12, 5>>, <<5, 3, 2>>} ELSE {})
LinLabels == {<<24>>} \cup (IF Big THEN {<<6>>, <<20, 10>>} ELSE {})
LinMins == {-25, -12, 0, 7, 24} \cup (IF Big THEN {-30, 1, 12} ELSE {})
LinSpans == {1, 12, 23, 36, 61} \cup (IF Big THEN {2, 8, 100} ELSE {})
P(f, b) == [f |-> f, b |-> b]
P1 == P(<<1>>, 10)
P125 == P(<<1, 2, 5>>, 10)
P19 == P(<<1, 2, 3, 4, 5, 6, 7, 8, 9>>, 10)
LogDists == {<<P1>>, <<P125>>, <<P1, P19>>, <<P(<<1>>, 100), P1>>} \cup (IF Big THEN {<<P19>>, <<P(<<1, 3>>, 10), P125>>} ELSE {})
LogLabels == {<<P1, P125>>} \cup (IF Big THEN {<<P125>>} ELSE {})
LogDists2 == {<<P(<<1>>, 2)>>, <<P(<<1, 2, 3>>, 4)>>, <<P(<<2>>, 4), P(<<1>>, 2)>>}
LogMins == {100, 130, 200, 999, 1000, 70} \cup (IF Big THEN {500, 95, 2000} ELSE {})
LogFacs == {<<11, 10>>, <<3, 1>>, <<10, 1>>, <<99, 1>>} \cup (IF Big THEN {<<1000, 1>>, <<2, 1>>, <<5, 2>>} ELSE {})
Case(mn, mx, ts, ls, et, el, f1, f2) == [min |-> mn, max |-> mx, ticks |-> ts, labels |-> ls, et |-> et, el |-> el, fmin |-> f1, fmax |-> f2]
Lists(D, L) == {<<<<d>>, None>> : d \in D} \cup {<<None, <<d>>>> : d \in L} \cup {<<<<d>>, <<l>>>> : d \in D, l \in L}
Cases == CASE Mode = "lin" -> {Case(m, m + s, x[1], x[2], et, el, f1, f2) : m \in LinMins, s \in LinSpans, x \in Lists(LinDists, LinLabels),
                                 et \in {-1, 0, 1}, el \in {-1, 0}, f1 \in BOOLEAN, f2 \in BOOLEAN}
           [] Mode = "log" -> {Case(m, (m * f[1]) \div f[2], x[1], x[2], et, el, f1, f2) : m \in LogMins, f \in LogFacs, x \in Lists(LogDists, LogLabels),
                                 et \in {-1, 0, 1}, el \in {-1, 0}, f1 \in BOOLEAN, f2 \in BOOLEAN}
           [] Mode = "log2" -> {Case(m, m + s, <<d>>, None, et, -1, f1, f2) : m \in {16, 17, 31, 40, 64}, s \in {1, 8, 16, 33, 100, 300}, d \in LogDists2,
                                 et \in {-1, 0, 1}, f1 \in BOOLEAN, f2 \in BOOLEAN}
Init == c \in Cases
Next == FALSE /\ UNCHANGED c
Part == IF Mode = "lin" THEN LinPart(c) ELSE LogPart(c)
Range == IF Mode = "lin" THEN Extended(c, LinExt) ELSE Extended(c, LogExt)
\* ordered, inside the range, and the range is extended only at free ends
Sane == LET p == Part r == Range IN
        /\ \A i \in 1..(Len(p) - 1) : p[i].p < p[i + 1].p
        /\ \A i \in DOMAIN p : r[1] <= p[i].p /\ p[i].p <= r[2] /\ (p[i].t >= 0 \/ p[i].l >= 0)
        /\ r[1] <= c.min /\ r[2] >= c.max /\ (c.fmin \/ r[1] = c.min) /\ (c.fmax \/ r[2] = c.max)
Emit == PrintT("@" \o ToJson([c |-> c, r |-> Part]))
=============================================================================
