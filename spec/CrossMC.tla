-------------------------------- MODULE CrossMC --------------------------------
(* All small pairs of paths: two segments (open) or a triangle against the same at other places. *)
EXTENDS Cross, TLC, Json
CONSTANTS N
G == (0..N) \X (0..N)
As == {<<[p |-> <<<<0, 0>>, <<N, 1>>, q>>, z |-> z]>> : q \in G \ {<<N, 1>>, <<0, 0>>}, z \in BOOLEAN}
Good(p) == \A i \in 1..Len(p.p) - 1 : p.p[i] # p.p[i + 1]
Bs == {<<[p |-> <<u, v>>, z |-> FALSE]>> : u \in G, v \in G} \cup {<<[p |-> <<u, v, w>>, z |-> TRUE]>> : u \in {<<0, N>>, <<1, 0>>, <<N - 1, 2>>}, v \in G, w \in G}
Area(p) == Det(Sub(p[2], p[1]), Sub(p[3], p[1]))
VARIABLES a, b
Init == /\ a \in As /\ b \in {x \in Bs : Good(x[1]) /\ (x[1].z => Area(x[1].p) # 0)}
        /\ (a[1].z => Area(a[1].p) # 0)
        /\ General(a, b)
Next == UNCHANGED <<a, b>>
Swap == Crossings(b, a) = {<<c[2], c[1]>> : c \in Crossings(a, b)}
SamePoint == \A c \in Crossings(a, b) : LET x == PointOf(a, c[1]) y == PointOf(b, c[2]) IN x[1] * c[2][4] = y[1] * c[1][4] /\ x[2] * c[2][4] = y[2] * c[1][4]
\* two closed curves which only cross properly do so an even number of times
Even == (a[1].z /\ b[1].z /\ \A c \in Crossings(a, b) : Interior(c)) => Cardinality(Crossings(a, b)) % 2 = 0
RevPath(x) == <<[x[1] EXCEPT !.p = [i \in DOMAIN @ |-> @[Len(@) + 1 - i]]]>>
Reverse == Cardinality(Crossings(RevPath(a), b)) = Cardinality(Crossings(a, b))
Emit == PrintT("@" \o ToJson(<<a, b>>))
=============================================================================
