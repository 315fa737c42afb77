----------------------------- MODULE ClippingMC -----------------------------
EXTENDS Clipping, TLC, Json
CONSTANTS Dim, Coords, Off, Lo, Hi, MaxLen   \* Off: configuration files have no negative numbers
Pts == [1..Dim -> {c - Off : c \in Coords}]
VARIABLE ps
Init == ps = <<>>
Next == Len(ps) < MaxLen /\ \E p \in Pts \cup {<<>>} : ps' = Append(ps, p)
L == Lines(ps, Lo, Hi)
InF(q) == \A i \in DOMAIN q : LeqF(<<Lo, 1>>, q[i]) /\ LeqF(q[i], <<Hi, 1>>)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* everything shown is inside; nothing is shown for less than two points
AllInside == \A k \in DOMAIN L : Len(L[k]) >= 2 /\ \A i \in DOMAIN L[k] : InF(L[k][i])
\* points inside with valid neighbours are on the line; data read backwards give the same lines backwards
Backwards == Lines(Rev(ps), Lo, Hi) = [k \in DOMAIN L |-> Rev(L[Len(L) + 1 - k])]
\* completely inside: one line through all points
Whole == (ps # <<>> /\ \A i \in DOMAIN ps : Inside(ps[i], Lo, Hi)) => L = Flush(<<>>, [i \in DOMAIN ps |-> Ends(ps[i])])
\* an end inside of a graph is a data point; every other end is at the boundary
EndsRight == \A k \in DOMAIN L : \A e \in {1, Len(L[k])} : LET q == L[k][e] IN
   (\E i \in DOMAIN ps : ps[i] # <<>> /\ Ends(ps[i]) = q) \/ (\E i \in DOMAIN q : q[i] \in {<<Lo, 1>>, <<Hi, 1>>})
Emit == ps # <<>> => PrintT("@" \o ToJson([ps |-> ps, l |-> L]))
=============================================================================
