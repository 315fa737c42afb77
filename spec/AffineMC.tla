------------------------------ MODULE AffineMC ------------------------------
(* Laws of the affine group on small integer maps. *)
EXTENDS Affine, TLC
CONSTANT N
R == (-N)..N
Maps == {<<a, b, c, d, e, f>> : a \in R, b \in R, c \in R, d \in R, e \in {-1, 2}, f \in {0, 3}}
VARIABLES m, n, p
Init == m \in Maps /\ n \in {x \in Maps : x[5] = 2} /\ p \in {<<0, 0>>, <<1, 0>>, <<2, -3>>}
Next == FALSE /\ UNCHANGED <<m, n, p>>
k == <<1, 2, -1, 0, 4, -2>>
Homomorphism == AffAp(AffMul(m, n), p) = AffAp(m, AffAp(n, p))
Associative == AffMul(k, AffMul(m, n)) = AffMul(AffMul(k, m), n)
Neutral == AffMul(m, AffId) = m /\ AffMul(AffId, m) = m
Determinant == AffDet(AffMul(m, n)) = AffDet(m) * AffDet(n)
=============================================================================
