-------------------------------- MODULE DecoMC --------------------------------
(* All small paths with up to two arrows: what is left to stroke and where the heads are. *)
EXTENDS Deco, TLC, Json
CONSTANTS MaxSegs
Steps == {<<600, 0>>, <<0, 300>>, <<900, -1200>>}
RECURSIVE Walk(_, _)
Walk(p, ds) == IF ds = <<>> THEN <<p>> ELSE <<p>> \o Walk(<<p[1] + Head(ds)[1], p[2] + Head(ds)[2]>>, Tail(ds))
Good(ps, z) == ~z \/ (Len(ps) > 2 /\ LET x == Abs(Last(ps)[1] - ps[1][1]) y == Abs(Last(ps)[2] - ps[1][2]) IN x + y > 0 /\ (x = 0 \/ y = 0 \/ 4 * x = 3 * y \/ 3 * x = 4 * y))
Subs(p, hi) == {s \in UNION {{[p |-> Walk(p, ds), z |-> z] : ds \in [1..n -> Steps], z \in BOOLEAN} : n \in 1..hi} : Good(s.p, s.z)}
Paths == {<<s>> : s \in Subs(<<0, 0>>, MaxSegs)} \cup {<<s, t>> : s \in Subs(<<0, 0>>, 1) \cup {[p |-> <<<<0, 0>>, <<600, 0>>, <<600, 300>>, <<0, 300>>>>, z |-> TRUE]}, t \in Subs(<<600, 6000>>, 2)}
Arrow(p, v, s, c) == [t |-> "arrow", pos |-> p, rev |-> v, size |-> s, cons |-> c, fill |-> 1, stroke |-> 0]
\* the head lies inside one subpath
Starts(path) == {Sum([i \in 1..k |-> SubLen(path[i])]) : k \in 1..Len(path) - 1}
Fits(path, a) ==
  LET t == Tip(path, a) e == TailAt(path, a) lo == Min(t, e) hi == Max(t, e) IN
  lo >= 0 /\ hi <= Total(path) /\ \A b \in Starts(path) : hi < b \/ lo > b
Items(path) == {a \in {Arrow(p, v, s, c) : p \in {0, 2, 4}, v \in BOOLEAN, s \in {300, 600}, c \in {0, 1, 2}} : Fits(path, a)}
Apart(path, is) == LET f == Front(path, is) b == Back(path, is) IN f # b /\ \A x \in Starts(path) : f # x /\ b # x
VARIABLES path, items
Init == path \in Paths /\ items = <<>>
Next == /\ Len(items) < 2
        /\ \E a \in Items(path) : items' = Append(items, a)
        /\ Apart(path, items')
        /\ UNCHANGED path
Stays ==
  LET f == Front(path, items) b == Back(path, items) IN
  \* exactly the ends are left out, whatever the order of the arrows
  /\ Total(Stroked(path, items)) = IF f >= b THEN 0 ELSE b - f
  /\ Len(items) = 2 => Stroked(path, <<items[2], items[1]>>) = Stroked(path, items)
  /\ \A i \in DOMAIN items : ~Hides(items[i]) => Len(items) = 2 \/ Stroked(path, items) = path
Sq(p) == p[1] * p[1] + p[2] * p[2]
Heads ==
  \A i \in DOMAIN items :
    LET a == items[i] h == Head5(path, a) n == Len(Template(path, a)) t == At(path, Tip(path, a)) e == At(path, TailAt(path, a)) IN
    \* the tip is on the path, both sides have the extent of the part of the path they are made of
    /\ h[n] = <<5 * t[1], 5 * t[2]>> /\ Len(h) = 2 * n - 1 + (IF a.cons = 0 THEN 0 ELSE 1)
    /\ Abs(h[1][1] - 5 * t[1]) + Abs(h[1][2] - 5 * t[2]) > 0
    /\ \A p \in {h[1], h[2 * n - 1]} : LET x == <<(p[1] - 5 * t[1]) \div 100, (p[2] - 5 * t[2]) \div 100>> y == <<(e[1] - t[1]) \div 20, (e[2] - t[2]) \div 20>> IN Abs(Sq(x) - Sq(y)) <= 400
    \* an arrow the other way round is the arrow of the path the other way round
    /\ (Len(path) = 1 /\ ~path[1].z) => Head5(Reversed(path), [a EXCEPT !.rev = ~@, !.pos = 4 - @]) = h
Emit == items = <<>> \/ PrintT("@" \o ToJson(<<path, items>>))
=============================================================================
