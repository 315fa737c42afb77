------------------------------ MODULE LengthMC ------------------------------
(* Laws of lengths on small components, under every rescaling. *)
EXTENDS Length, TLC
CONSTANT N
R == (-N)..N
L5 == [1..5 -> R]
VARIABLES a, b, sc, k
Init == a \in L5 /\ b \in {LNew(4, "u", "pt"), LNew(-3, "x", "mm"), <<1, -1, 2, 0, 3>>} /\ sc = <<4, 4, 4, 4, 4>> /\ k = 0
Next == /\ k < 2
        /\ k' = k + 1
        /\ \E i \in 2..5 : \E s \in {1, 6} : sc' = [sc EXCEPT ![i] = s]
        /\ UNCHANGED <<a, b>>
Linear == /\ LTotal(LAdd(a, b), sc) = LTotal(a, sc) + LTotal(b, sc)
          /\ LTotal(LSub(a, b), sc) = LTotal(a, sc) - LTotal(b, sc)
          /\ LTotal(LMul(a, -3), sc) = -3 * LTotal(a, sc)
          /\ LAdd(a, LNeg(a)) = Zero5 /\ LAdd(a, b) = LAdd(b, a) /\ LSub(LAdd(a, b), b) = a
OneKind == [][\A i \in 1..5 : sc'[i] # sc[i] => LTotal(a, sc') - LTotal(a, sc) = a[i] * (sc'[i] - sc[i])]_<<a, b, sc, k>>
TrueFixed == LTotal(<<a[1], 0, 0, 0, 0>>, sc) = 4 * a[1]
=============================================================================
