-------------------------------- MODULE BoxMC --------------------------------
(* The box algebra: TLC checks the lattice laws for all pairs (triples) of boxes on a small grid. *)
EXTENDS Box, FiniteSets, TLC
CONSTANT N
Pts == (0..N) \X (0..N)
Boxes == {<<>>} \cup {<<p[1], p[2], q[1], q[2]>> : p \in Pts, q \in {x \in Pts : TRUE}}
Valid == {b \in Boxes : b = <<>> \/ (b[1] <= b[3] /\ b[2] <= b[4])}
Points(b) == {p \in Pts : Inside(p, b)}
VARIABLES a, b, c
vars == <<a, b, c>>
Init == a \in Valid /\ b \in Valid /\ c \in {<<>>, <<0, 0, 0, 0>>, <<0, 1, N, 1>>, <<1, 0, 1, N>>, <<0, 0, N, N>>}
Next == FALSE /\ UNCHANGED vars
Leq(x, y) == Join(x, y) = y
Laws == /\ Join(a, b) = Join(b, a) /\ Meet(a, b) = Meet(b, a)
        /\ Join(a, Join(b, c)) = Join(Join(a, b), c) /\ Meet(a, Meet(b, c)) = Meet(Meet(a, b), c)
        /\ Join(a, a) = a /\ Meet(a, a) = a
        /\ Join(a, <<>>) = a /\ Meet(a, <<>>) = <<>>
        /\ Join(a, Meet(a, b)) = a /\ Meet(a, Join(a, b)) = a
Exact == /\ Points(Meet(a, b)) = Points(a) \cap Points(b)
         /\ Points(a) \cup Points(b) \subseteq Points(Join(a, b))
         /\ ((Leq(a, c) /\ Leq(b, c)) => Leq(Join(a, b), c))
         /\ (Leq(a, b) <=> Points(a) \subseteq Points(b))
Turned == LET m == <<0, 1, -1, 0, 3, 1>> IN
          /\ Transformed(Join(a, b), m) = Join(Transformed(a, m), Transformed(b, m))
          /\ Transformed(Meet(a, b), m) = Meet(Transformed(a, m), Transformed(b, m))
==============================================================================
