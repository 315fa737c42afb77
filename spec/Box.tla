-------------------------------- MODULE Box --------------------------------
(* Bounding boxes: <<>> is the empty box, otherwise <<llx, lly, urx, ury>> with llx <= urx, lly <= ury. *)
EXTENDS Integers, Sequences, Affine
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Empty == <<>>
Join(b, c) == IF b = <<>> THEN c ELSE IF c = <<>> THEN b
              ELSE <<Min2(b[1], c[1]), Min2(b[2], c[2]), Max2(b[3], c[3]), Max2(b[4], c[4])>>
Overlap(b, c) == b # <<>> /\ c # <<>> /\ b[1] <= c[3] /\ c[1] <= b[3] /\ b[2] <= c[4] /\ c[2] <= b[4]
Meet(b, c) == IF Overlap(b, c) THEN <<Max2(b[1], c[1]), Max2(b[2], c[2]), Min2(b[3], c[3]), Min2(b[4], c[4])>> ELSE <<>>
\* enlarge by bottom, left, top, right
Grow(b, bo, le, to, ri) == IF b = <<>> THEN <<>> ELSE <<b[1] - le, b[2] - bo, b[3] + ri, b[4] + to>>
Corners(b) == << <<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>> >>
PointBox(p) == <<p[1], p[2], p[1], p[2]>>
RECURSIVE Hull(_)
Hull(ps) == IF ps = <<>> THEN <<>> ELSE Join(PointBox(Head(ps)), Hull(Tail(ps)))
Transformed(b, m) == IF b = <<>> THEN <<>> ELSE LET c == Corners(b) IN Hull([i \in 1..4 |-> AffAp(m, c[i])])
Inside(p, b) == b # <<>> /\ b[1] <= p[1] /\ p[1] <= b[3] /\ b[2] <= p[2] /\ p[2] <= b[4]
=============================================================================
