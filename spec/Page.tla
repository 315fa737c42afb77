------------------------------- MODULE Page -------------------------------
(* Where a page puts its content on the paper.  Boxes are <<left, bottom, right, top>>; everything in *)
(* points; results are reduced fractions.                                                              *)
(* o: [box |-> content box, given |-> explicit page box or <<>>, enl, paper |-> <<>> or <<w, h>>,       *)
(*     rot, cen, fit |-> flags, margin]                                                                *)
EXTENDS Frac, TLC
PageBox(o) == IF o.given # <<>> THEN o.given ELSE <<o.box[1] - o.enl, o.box[2] - o.enl, o.box[3] + o.enl, o.box[4] + o.enl>>
Moved(o) == o.paper # <<>> /\ (o.rot \/ o.cen \/ o.fit)
Refused(o) == Moved(o) /\ o.fit /\ (2 * o.margin > o.paper[1] \/ 2 * o.margin > o.paper[2])
Wid(b) == b[3] - b[1]
Hei(b) == b[4] - b[2]
\* the size of the page box as it appears on the paper before scaling
Turned(o) == IF o.rot THEN <<Hei(PageBox(o)), Wid(PageBox(o))>> ELSE <<Wid(PageBox(o)), Hei(PageBox(o))>>
Factor(o) == IF Moved(o) /\ o.fit
             THEN MinF(Fr(o.paper[1] - 2 * o.margin, Turned(o)[1]), Fr(o.paper[2] - 2 * o.margin, Turned(o)[2]))
             ELSE <<1, 1>>
\* the place of the point <<x, y>> of the canvas on the paper
Place(o, x, y) ==
  IF ~Moved(o) THEN <<I2F(x), I2F(y)>>
  ELSE LET b == PageBox(o)
           s == Factor(o)
       IN IF o.rot /\ ~o.cen /\ ~o.fit THEN <<I2F(o.paper[1] - y), I2F(x)>>
          ELSE LET dx == Fr(2 * x - b[1] - b[3], 2)     \* from the centre of the page box
                   dy == Fr(2 * y - b[2] - b[4], 2)
                   px == IF o.rot THEN NegF(dy) ELSE dx
                   py == IF o.rot THEN dx ELSE dy
               IN <<AddF(Fr(o.paper[1], 2), MulF(s, px)), AddF(Fr(o.paper[2], 2), MulF(s, py))>>
Hull(o, b) == LET p == Place(o, b[1], b[2])
                  q == Place(o, b[3], b[4])
              IN <<MinF(p[1], q[1]), MinF(p[2], q[2]), MaxF(p[1], q[1]), MaxF(p[2], q[2])>>
Unite(a, b) == <<MinF(a[1], b[1]), MinF(a[2], b[2]), MaxF(a[3], b[3]), MaxF(a[4], b[4])>>
\* the box written for the page: the explicit one, or the one of the content with the enlargement
Written(o) == IF o.given # <<>> THEN Hull(o, PageBox(o)) ELSE Unite(Hull(o, PageBox(o)), Hull(o, o.box))
Outwards(b) == <<FloorF(b[1]), FloorF(b[2]), CeilF(b[3]), CeilF(b[4])>>
\* known paper formats in tenths of a millimetre, Letter and Legal in tenths of an inch
Formats == [A5 |-> <<1485, 2100>>, A4 |-> <<2100, 2970>>, A3 |-> <<2970, 4200>>, A2 |-> <<4200, 5940>>, A1 |-> <<5940, 8400>>, A0 |-> <<8400, 11880>>, A0b |-> <<9100, 13700>>, Letter |-> <<85, 110>>, Legal |-> <<85, 140>>]
=============================================================================
