------------------------------- MODULE Frac -------------------------------
(* Reduced fractions <<n, d>>, d > 0. *)
EXTENDS Integers, Sequences
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Fr(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                g == GCD(AbsI(n), AbsI(d))
            IN <<(s * n) \div g, AbsI(d) \div g>>
I2F(n) == <<n, 1>>
LeqF(p, q) == p[1] * q[2] <= q[1] * p[2]
LessF(p, q) == p[1] * q[2] < q[1] * p[2]
MaxF(p, q) == IF LeqF(p, q) THEN q ELSE p
MinF(p, q) == IF LeqF(p, q) THEN p ELSE q
AddF(p, q) == Fr(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
NegF(p) == <<-p[1], p[2]>>
SubF(p, q) == AddF(p, NegF(q))
MulF(p, q) == Fr(p[1] * q[1], p[2] * q[2])
DivF(p, q) == Fr(p[1] * q[2], p[2] * q[1])
AbsF(p) == <<AbsI(p[1]), p[2]>>
FloorF(p) == p[1] \div p[2]
CeilF(p) == -((-p[1]) \div p[2])
=============================================================================
