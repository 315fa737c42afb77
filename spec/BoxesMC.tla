------------------------------- MODULE BoxesMC -------------------------------
(* All small boxes, line alignments and tilings. *)
EXTENDS Boxes, TLC, Json
CONSTANTS K
Shapes == {<<<<0, 0>>, <<w, 0>>, <<w, h>>, <<0, h>>>> : w \in {0, 3, 8}, h \in {3, 5}} \cup {<<<<0, 0>>, <<4, 0>>, <<4, 3>>>>, <<<<0, 0>>, <<5, 0>>, <<8, 4>>, <<3, 4>>>>, <<<<0, 4>>, <<3, 0>>, <<6, 4>>, <<3, 8>>>>, <<<<0, 3>>, <<4, 0>>, <<8, 3>>, <<8, 6>>, <<4, 9>>, <<0, 6>>>>}
Dirs == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>, <<3, 4>>, <<-4, 3>>, <<-3, -4>>, <<8, -6>>, <<0, 2>>}
VARIABLES ps, c, a, d
Init == ps \in Shapes /\ c \in {p \in (0..8) \X (0..8) : ~(\E i \in DOMAIN ps : LET g == Sub(Nxt(ps, i), ps[i]) IN Cross(g, Sub(p, ps[i])) < 0) /\ p[2] <= High(ps, <<0, 1>>) /\ p[1] <= High(ps, <<1, 0>>)} /\ a \in 0..K /\ d \in Dirs
Next == UNCHANGED <<ps, c, a, d>>
\* everything is scaled by N(d)^2 to stay with integers
Aligned == LET n == N(d) s == LineShift(ps, c, a, d) IN [i \in DOMAIN ps |-> <<n * n * ps[i][1] + s * d[1], n * n * ps[i][2] + s * d[2]>>]
C == <<N(d) * N(d) * c[1], N(d) * N(d) * c[2]>>
Touches == Low(Aligned, d) - Dot(C, d) = a * N(d) * N(d) * N(d)
\* nothing is on the near side, and a bigger distance moves further
Beyond == \A i \in DOMAIN ps : Dot(Sub(Aligned[i], C), d) >= a * N(d) * N(d) * N(d)
Size == Extent(Aligned, d) = N(d) * N(d) * Extent(ps, d)
\* both ends of the box are its extent
Both == LineShift(ps, c, 0, d) + LineShift(ps, c, 0, <<-d[1], -d[2]>>) = Extent(ps, d)
\* tiling with the extent keeps boxes apart
Tiled == (a > 0 /\ Extent(ps, d) > 0) => LET n == N(d) e == Extent(ps, d) + a * n IN Apart([i \in DOMAIN ps |-> <<n * n * ps[i][1], n * n * ps[i][2]>>], [i \in DOMAIN ps |-> <<n * n * ps[i][1] + e * d[1], n * n * ps[i][2] + e * d[2]>>], 0) \/ Len(ps) < 3
Emit == PrintT("@" \o ToJson([ps |-> ps, c |-> c, a |-> a, d |-> d]))
=============================================================================
