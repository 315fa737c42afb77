-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers <<n, d>> with d > 0, and ordered lists of ticks at such positions.        *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Rat(n, d) == IF d < 0 THEN <<-n, -d>> ELSE <<n, d>>
RLess(a, b) == a[1] * b[2] < b[1] * a[2]
REq(a, b) == a[1] * b[2] = b[1] * a[2]
RMul(a, b) == <<a[1] * b[1], a[2] * b[2]>>
RInv(a) == Rat(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
RAbs(a) == <<Abs(a[1]), a[2]>>
RECURSIVE Pow10(_), RPow(_, _)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
RPow(a, n) == IF n = 0 THEN <<1, 1>> ELSE IF n < 0 THEN RPow(RInv(a), -n) ELSE RMul(a, RPow(a, n - 1))
\* decimal notation: sign, integer and fraction digits, fl digits in the fraction, exponent
Dec(x) == LET m == x.int * Pow10(x.fl) + x.frac
              s == IF x.sign = "-" THEN -m ELSE m
          IN IF x.e >= 0 THEN <<s * Pow10(x.e), Pow10(x.fl)>> ELSE <<s, Pow10(x.fl) * Pow10(-x.e)>>

\* ---- ticks: [p |-> rational, t |-> level or -1, l |-> level or -1] --------------------------------
Low(a, b) == IF a < 0 THEN b ELSE IF b < 0 THEN a ELSE IF a < b THEN a ELSE b
Both(x, y) == [p |-> x.p, t |-> Low(x.t, y.t), l |-> Low(x.l, y.l)]
RECURSIVE MergeTicks(_, _, _)
\* equal: whether the levels of ticks at the same position are combined
MergeTicks(a, b, equal) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE IF REq(Head(a).p, Head(b).p)
       THEN <<IF equal THEN Both(Head(a), Head(b)) ELSE Head(a)>> \o MergeTicks(Tail(a), Tail(b), equal)
  ELSE IF RLess(Head(a).p, Head(b).p) THEN <<Head(a)>> \o MergeTicks(Tail(a), b, equal)
  ELSE <<Head(b)>> \o MergeTicks(a, Tail(b), equal)
Ordered(a) == \A i \in 1..(Len(a) - 1) : RLess(a[i].p, a[i + 1].p)
SamePos(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i].p, b[i].p) /\ a[i].t = b[i].t /\ a[i].l = b[i].l
=============================================================================
