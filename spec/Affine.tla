------------------------------- MODULE Affine -------------------------------
(* Affine maps with integer coefficients: <<a, b, c, d, e, f>> maps (x, y) to                    *)
(* (a x + c y + e, b x + d y + f), the convention of PostScript, PDF and SVG.                   *)
EXTENDS Integers, Sequences
AffId == <<1, 0, 0, 1, 0, 0>>
AffAp(m, p) == <<m[1] * p[1] + m[3] * p[2] + m[5], m[2] * p[1] + m[4] * p[2] + m[6]>>
\* AffMul(m, n): first n, then m
AffMul(m, n) == <<m[1] * n[1] + m[3] * n[2], m[2] * n[1] + m[4] * n[2],
                  m[1] * n[3] + m[3] * n[4], m[2] * n[3] + m[4] * n[4],
                  m[1] * n[5] + m[3] * n[6] + m[5], m[2] * n[5] + m[4] * n[6] + m[6]>>
AffLin(m) == SubSeq(m, 1, 4)
AffDet(m) == m[1] * m[4] - m[2] * m[3]
=============================================================================
