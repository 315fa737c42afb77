------------------------------- MODULE Length -------------------------------
(* Lengths: five components (true, user, visual, width, TeX) in atoms of 1/2032 pt, and the    *)
(* scales of the kinds in quarters (the true kind always has scale 4/4).                       *)
EXTENDS Integers, Sequences
Zero5 == <<0, 0, 0, 0, 0>>
KindOf == [t |-> 1, u |-> 2, v |-> 3, w |-> 4, x |-> 5]
Atoms == [m |-> 5760000, cm |-> 57600, mm |-> 5760, inch |-> 146304, pt |-> 2032]
\* n units of the given kind, n in 1/4
LNew(n, kind, unit) == [i \in 1..5 |-> IF i = KindOf[kind] THEN (n * Atoms[unit]) \div 4 ELSE 0]
LAdd(a, b) == [i \in 1..5 |-> a[i] + b[i]]
LSub(a, b) == [i \in 1..5 |-> a[i] - b[i]]
LNeg(a) == [i \in 1..5 |-> -a[i]]
LMul(a, n) == [i \in 1..5 |-> a[i] * n]
LDiv(a, n) == [i \in 1..5 |-> IF n < 0 THEN (-a[i]) \div (-n) ELSE a[i] \div n]
LDivides(a, n) == \A i \in 1..5 : a[i] % (IF n < 0 THEN -n ELSE n) = 0
\* quarters of atoms of true length
LTotal(a, sc) == a[1] * sc[1] + a[2] * sc[2] + a[3] * sc[3] + a[4] * sc[4] + a[5] * sc[5]
=============================================================================
