-------------------------------- MODULE KeyMC --------------------------------
(* Laws of the layout, and all small layouts for the replay. *)
EXTENDS Key, TLC, Json
CONSTANTS MaxN, MaxC
Ts == << [w |-> 20, h |-> 8, d |-> 3], [w |-> 35, h |-> 12, d |-> 0], [w |-> 10, h |-> 5, d |-> 6] >>
VARIABLES titles, given, columns
\* given: which plots have a title
Init == titles = <<>> /\ given = <<>> /\ columns \in 1..MaxC
Next == /\ Len(given) < MaxN
        /\ \E g \in 0..Len(Ts) : /\ given' = Append(given, g)
                                  /\ titles' = IF g = 0 THEN titles ELSE Append(titles, Ts[g])
        /\ UNCHANGED columns
C == [columns |-> columns, dist |-> 4]
n == Len(titles)
\* every entry has a place of its own, the columns are filled in order and as evenly as whole rows allow
Places == \A i, j \in 1..n : i # j => <<ColOf(i, n, columns), RowOf(i, n, columns)>> # <<ColOf(j, n, columns), RowOf(j, n, columns)>>
Few == NCols(n, columns) <= columns
Ordered == \A i, j \in 1..n : i < j => ColOf(i, n, columns) < ColOf(j, n, columns) \/ (ColOf(i, n, columns) = ColOf(j, n, columns) /\ RowOf(i, n, columns) < RowOf(j, n, columns))
Rowwise == n > 0 => columns * Rows(n, columns) \in n..(n + columns - 1)
\* titles of the same kind do not come closer than the distance
Apart == \A i \in 1..n : (i < n /\ ColOf(i, n, columns) = ColOf(i + 1, n, columns) /\ titles[i] = titles[i + 1]) => RefY(C, titles, i) - titles[i].d - (RefY(C, titles, i + 1) + titles[i + 1].h) >= C.dist
Inside == \A q \in 0..4 : LET p == Placed(10, 100, 30, q, 7, TRUE) IN p >= 17 /\ p + 30 <= 103
Outside == Placed(10, 100, 30, 0, 7, FALSE) = 10 - 7 - 30 /\ Placed(10, 100, 30, 4, 7, FALSE) = 110 + 7 /\ Placed(10, 100, 30, 2, 7, FALSE) = 45
Emit == Len(given) < MaxN \/ PrintT("@" \o ToJson([given |-> given, columns |-> columns]))
=============================================================================
