------------------------------ MODULE PageMC ------------------------------
EXTENDS Page, Json, FiniteSets
CONSTANTS Boxes, Papers, Margins, Enls, Givens
VARIABLE o
Boxes1 == {<<10, 20, 110, 70>>, <<0, 0, 30, 90>>}
Papers1 == {<<200, 300>>, <<90, 60>>}
Givens1 == {<<3, 5, 50, 21>>}
Boxes2 == {<<100, 200, 101, 900>>, <<7, 9, 57, 59>>, <<-300, -10, -250, 40>>}
Papers2 == {<<595, 842>>, <<100, 100>>, <<612, 792>>}
Givens2 == {<<0, 0, 400, 10>>, <<90, 190, 120, 1000>>}
Seqs(f) == {<<>>} \cup f
Init == \E b \in Boxes, g \in Seqs(Givens), e \in Enls, p \in Seqs(Papers), r \in BOOLEAN, c \in BOOLEAN, f \in BOOLEAN, m \in Margins :
          o = [box |-> b, given |-> g, enl |-> e, paper |-> p, rot |-> r, cen |-> c, fit |-> f, margin |-> m]
Next == UNCHANGED o
ok == ~Refused(o)
H == Hull(o, PageBox(o))
\* a fitted page box is inside of the margins and touches two opposite ones; it is centred
Fits == (ok /\ Moved(o) /\ o.fit) =>
   LET m == I2F(o.margin)
       w == I2F(o.paper[1] - o.margin)
       h == I2F(o.paper[2] - o.margin)
   IN /\ LeqF(m, H[1]) /\ LeqF(m, H[2]) /\ LeqF(H[3], w) /\ LeqF(H[4], h)
      /\ (H[1] = m /\ H[3] = w) \/ (H[2] = m /\ H[4] = h)
Centred == (ok /\ Moved(o) /\ (o.cen \/ o.fit)) => AddF(H[1], H[3]) = I2F(o.paper[1]) /\ AddF(H[2], H[4]) = I2F(o.paper[2])
\* one uniform scaling and a rotation by 0 or 90 degrees: (1,0) and (0,1) stay orthogonal, of equal length and orientation
Similar == ok => LET z == Place(o, 0, 0)
                     x == Place(o, 1, 0)
                     y == Place(o, 0, 1)
                     ux == SubF(x[1], z[1])
                     uy == SubF(x[2], z[2])
                     vx == SubF(y[1], z[1])
                     vy == SubF(y[2], z[2])
                 IN /\ vx = NegF(uy) /\ vy = ux
                    /\ IF Moved(o) /\ o.rot THEN ux[1] = 0 /\ uy = Factor(o) ELSE uy[1] = 0 /\ ux = Factor(o)
Still == (ok /\ ~Moved(o)) => Place(o, 3, 5) = <<I2F(3), I2F(5)>>
Emit == PrintT("@" \o ToJson([o |-> o, refused |-> Refused(o), pts |-> IF ok THEN <<Place(o, o.box[1], o.box[2]), Place(o, o.box[3], o.box[2]), Place(o, o.box[1], o.box[4])>> ELSE <<>>,
                              box |-> IF ok THEN Written(o) ELSE <<>>, out |-> IF ok THEN Outwards(Written(o)) ELSE <<>>]))
=============================================================================
