-------------------------------- MODULE PolyMC --------------------------------
(* All small paths (one or two subpaths) with all pairs of cuts: the laws of arc lengths, cuts and reversal. *)
EXTENDS Poly, TLC, Json
CONSTANTS MaxSegs, Two
Steps == {<<120, 0>>, <<0, 60>>, <<-60, 0>>, <<180, -240>>}
RECURSIVE Walk(_, _)
Walk(p, ds) == IF ds = <<>> THEN <<p>> ELSE <<p>> \o Walk(<<p[1] + Head(ds)[1], p[2] + Head(ds)[2]>>, Tail(ds))
Good(ps, z) == ~z \/ (Len(ps) > 1 /\ Last(ps) # ps[1] /\ LET x == Abs(Last(ps)[1] - ps[1][1]) y == Abs(Last(ps)[2] - ps[1][2]) IN x = 0 \/ y = 0 \/ 4 * x = 3 * y \/ 3 * x = 4 * y) \/ (Len(ps) > 2 /\ Last(ps) = ps[1])
Subs(p, lo, hi) == {s \in UNION {{[p |-> Walk(p, ds), z |-> z] : ds \in [1..n -> Steps], z \in BOOLEAN} : n \in lo..hi} : Good(s.p, s.z)}
Paths == {<<s>> : s \in Subs(<<0, 0>>, 1, MaxSegs)} \cup (IF Two THEN {<<s, t>> : s \in Subs(<<0, 0>>, 1, 2), t \in Subs(<<600, 60>>, 0, 2)} ELSE {})
VARIABLES path, cut
Init == path \in Paths /\ cut = <<>>
Next == /\ cut = <<>>
        /\ \E a, b \in {0, 60, 90, 120, 180, 300, 420} : a <= b /\ b <= Total(path) /\ cut' = <<a, b>>
        /\ UNCHANGED path
Cuts == [i \in DOMAIN cut |-> Pos(path, cut[i])]
Sound ==
  cut # <<>> =>
  /\ \A i \in DOMAIN cut : ArcLen(path, Cuts[i]) = cut[i] \/ Cuts[i][2] = 0
  /\ ArcLen(path, End(path)) = Total(path) /\ ArcLen(path, Begin(path)) = 0
  /\ Total(Reversed(path)) = Total(path) /\ Canon(Reversed(Reversed(path))) = Canon(path)
  /\ Len(path) = 1 => \A i \in DOMAIN cut : At(Reversed(path), Total(path) - cut[i]) = At(path, cut[i])
  /\ LET ps == Split(path, Cuts) IN
     /\ Sum([i \in DOMAIN ps |-> Total(ps[i])]) = Total(path)
     \* what an open path was cut into joins to the path again
     /\ (Len(path) = 1 /\ ~path[1].z) =>
          /\ Len(ps) = Len(cut) + 1
          /\ \A i \in 1..Len(ps) - 1 : CanJoin(ps[i], ps[i + 1]) /\ PointAt(ps[i], End(ps[i])) = At(path, cut[i]) /\ PointAt(ps[i + 1], Begin(ps[i + 1])) = At(path, cut[i])
          /\ LET j == Joined(Joined(ps[1], ps[2]), ps[3]) IN Total(j) = Total(path) /\ \A s \in {0, 60, 90, 120, 180, 240} : s <= Total(path) => At(j, s) = At(path, s)
     /\ (Len(path) = 1 /\ path[1].z) => Len(ps) = Len(cut) /\ \A i \in DOMAIN ps : ~ps[i][1].z
  /\ \A m \in {<<0, -1, 1, 0, 60, 0>>, <<-1, 0, 0, 1, 0, 0>>} : \A i \in DOMAIN cut : At(Transform(path, m), cut[i]) = LET p == At(path, cut[i]) IN <<m[1] * p[1] + m[2] * p[2] + m[5], m[3] * p[1] + m[4] * p[2] + m[6]>>
Emit == cut # <<>> => PrintT("@" \o ToJson(<<path, cut>>))
=============================================================================
