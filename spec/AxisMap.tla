------------------------------ MODULE AxisMap ------------------------------
(* The range of a regular axis and the map from axis coordinates to positions between 0 and 1.     *)
(* Coordinates are integers: values of linear axes in some unit, exponents of logarithmic axes     *)
(* (negative logarithmic axes: negated exponents, such that coordinates are ordered like values).  *)
(* cfg = [min, max |-> <<>> or <<fixed end>>, rev, fall |-> <<>>, <<width2>> or <<begin, end>>]    *)
EXTENDS Integers, Sequences, FiniteSets
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(s) == {s[i] : i \in DOMAIN s}

\* free ends enclose all the data, fixed ends ignore them
NewAxis(cfg) == [lo |-> cfg.min, hi |-> cfg.max, made |-> FALSE]
Adjust(cfg, a, vs) == IF vs = <<>> \/ a.made THEN a
   ELSE [a EXCEPT !.lo = IF cfg.min # <<>> THEN cfg.min ELSE <<SetMin(Range(a.lo) \cup Range(vs))>>,
                  !.hi = IF cfg.max # <<>> THEN cfg.max ELSE <<SetMax(Range(a.hi) \cup Range(vs))>>]
\* an axis can be made once its range is known; a range of no extent is replaced by the fallback range
Complete(a) == a.lo # <<>> /\ a.hi # <<>>
Flat(a) == Complete(a) /\ a.lo = a.hi
CanMake(cfg, a) == Complete(a) /\ (Flat(a) => cfg.fall # <<>>)
\* (fixed ends given in reversed order are a reversed axis of the ordered range)
Swapped(cfg) == cfg.min # <<>> /\ cfg.max # <<>> /\ cfg.min[1] > cfg.max[1]
Norm(cfg) == IF Swapped(cfg) THEN [cfg EXCEPT !.min = cfg.max, !.max = cfg.min, !.rev = ~cfg.rev] ELSE cfg
Base(cfg, a) == IF ~Flat(a) THEN <<a.lo[1], a.hi[1]>>
                ELSE IF Len(cfg.fall) = 1 THEN <<a.lo[1] - cfg.fall[1], a.lo[1] + cfg.fall[1]>> ELSE cfg.fall
\* position of x as a fraction <<numerator, positive denominator>>
Pos(cfg, r, x) == LET n == IF cfg.rev THEN r[2] - x ELSE x - r[1]
                      d == r[2] - r[1]
                  IN IF d > 0 THEN <<n, d>> ELSE <<-n, -d>>
Less(p, q) == p[1] * q[2] < q[1] * p[2]
Same(p, q) == p[1] * q[2] = q[1] * p[2]
=============================================================================
