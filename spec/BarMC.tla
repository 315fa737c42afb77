------------------------------- MODULE BarMC -------------------------------
(* Laws of the sub-axis layout for all small trees and data. *)
EXTENDS BarAxis, TLC
CONSTANTS MaxVals
Leaf(k, s, r) == [k |-> k, size |-> s, min |-> <<>>, max |-> <<>>, rev |-> r, dist |-> 0, first |-> 0, last |-> 0, def |-> <<>>, named |-> <<>>]
BarOf(c, d, f, g, r) == [k |-> "bar", size |-> 0, min |-> <<>>, max |-> <<>>, rev |-> r, dist |-> d, first |-> f, last |-> g, def |-> <<c>>, named |-> <<>>]
Leaves == {Leaf("lin", 0, FALSE), Leaf("sized", 6, TRUE), Leaf("auto", 0, FALSE)}
Cfgs == {BarOf(BarOf(c, 0, 0, 0, r2), d, f, g, r) : c \in Leaves, d \in {0, 2}, f \in {0, 1}, g \in {0, 3}, r \in BOOLEAN, r2 \in BOOLEAN}
Vals == [p : {<<a, b>> : a \in {"a", "b"}, b \in {"u", "v"}}, x : {<<0>>, <<2>>}]
VARIABLES c, st, seen
Init == c \in Cfgs /\ st = New(c) /\ seen = <<>>
Next == \E v \in Vals : Len(seen) < MaxVals /\ st' = Adj(c, st, <<v>>) /\ seen' = Append(seen, v) /\ UNCHANGED c
\* neighbouring sub-axes do not overlap, keep the requested distance, and fill the axis
Tiles == \A i \in DOMAIN st.names :
    /\ Begin(c, st, i) = (IF i = 1 THEN c.first ELSE End(c, st, i - 1) + c.dist)
    /\ OverBegin2(c, st, i) = (IF i = 1 THEN 0 ELSE OverEnd2(c, st, i - 1))
    /\ OverBegin2(c, st, i) <= 2 * Begin(c, st, i) /\ 2 * End(c, st, i) <= OverEnd2(c, st, i)
    /\ i = Len(st.names) => End(c, st, i) + c.last = Size(c, st)
\* all data are on the axis, between 0 and 1, and different sub-axes never mix
OnAxis == Ready(c, st) => \A i \in DOMAIN seen : LET q == Place(c, st, seen[i]) IN q # <<>> /\ q[1] >= 0 /\ q[1] <= q[2]
Ordered == Ready(c, st) => \A i, j \in DOMAIN seen :
    IdxOf(st, seen[i].p[1]) < IdxOf(st, seen[j].p[1]) => ~Less(Place(c, st, seen[j]), Place(c, st, seen[i]))
\* names appear in the order of their first occurrence (or the opposite order)
FirstSeen(n) == CHOOSE i \in DOMAIN seen : seen[i].p[1] = n /\ \A j \in 1..(i - 1) : seen[j].p[1] # n
NameOrder == \A i, j \in DOMAIN st.names : i < j => (FirstSeen(st.names[i]) < FirstSeen(st.names[j])) = ~c.rev
\* feeding the data at once or step by step is the same
Once == st = Adj(c, New(c), seen)
=============================================================================
