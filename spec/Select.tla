------------------------------- MODULE Select -------------------------------
(* Changing attributes.  An entry of an attribute list is fixed, a list to cycle through (or to  *)
(* exhaust), a gradient (a fraction of the way from lo to hi), or chosen by the total number.     *)
(* A selected value is [k, num, den]; <<>> stands for "no attribute left: do not draw".           *)
EXTENDS Integers, Sequences, FiniteSets
Val(k, n, d) == [k |-> k, num |-> n, den |-> d]
RECURSIVE Sel1(_, _, _)
Sel1(a, i, n) ==
  CASE a.t = "fix"  -> <<a.v>>
    [] a.t = "cyc"  -> <<a.vs[(i % Len(a.vs)) + 1]>>
    [] a.t = "list" -> IF i < Len(a.vs) THEN <<a.vs[i + 1]>> ELSE <<>>
    [] a.t = "grad" -> IF n = 1 THEN <<Val(a.k, a.lo, 1)>> ELSE <<Val(a.k, a.lo * (n - 1 - i) + a.hi * i, n - 1)>>
    [] a.t = "multi" -> Sel1(a.as[n], i, n)
\* the whole list: optional, as a sequence of length 0 or 1
SelAll(as, i, n) == IF \E j \in DOMAIN as : Sel1(as[j], i, n) = <<>> THEN <<>>
                    ELSE << [j \in DOMAIN as |-> Sel1(as[j], i, n)[1]] >>
\* last value of a kind, in quarters of what it was (exclusive attributes)
RECURSIVE LastOf(_, _, _)
LastOf(vs, k, default) == IF vs = <<>> THEN default
                          ELSE IF vs[Len(vs)].k = k THEN vs[Len(vs)] ELSE LastOf(SubSeq(vs, 1, Len(vs) - 1), k, default)
\* plots p[1], p[2], ... name the style list they use; each style list counts its own plots
Index(p, j) == Cardinality({i \in 1..(j - 1) : p[i] = p[j]})
Total(p, j) == Cardinality({i \in DOMAIN p : p[i] = p[j]})
=============================================================================
