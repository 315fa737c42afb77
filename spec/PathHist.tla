------------------------------- MODULE PathHist -------------------------------
(* Paths are values: histories of operations on several paths. vals is the sequence of all paths there are,    *)
(* an operation either yields new paths (appended to vals) or changes the one path it is applied to in place.  *)
EXTENDS Poly
Nice(a, b) == LET x == Abs(a[1] - b[1]) y == Abs(a[2] - b[2]) IN x = 0 \/ y = 0 \/ 4 * x = 3 * y \/ 3 * x = 4 * y
AllNice(path) == \A i \in DOMAIN path : \A k \in 1..NSeg(path[i]) : Nice(Round(path[i])[k], Round(path[i])[k + 1])
\* a cut exactly between two subpaths could be on either side
Clear(path, s) == s > 0 /\ s < Total(path) /\ ~\E i \in 1..Len(path) - 1 : ArcLen(path, SubEnd(path, i)) = s
LastSub(path) == Last(path)
MapLast(path, f(_)) == [path EXCEPT ![Len(path)] = f(@)]
\* every piece of a path has an extent
Whole(path) == path # <<>> /\ \A i \in DOMAIN path : NSeg(path[i]) > 0
Can(vals, o) ==
  LET p == vals[o.i] q == vals[o.j] IN
  CASE o.k \in {"reversed", "copy", "norm", "topath", "trans", "add", "iadd"} -> TRUE
    [] o.k = "query" -> Whole(p) /\ Whole(q)
    [] o.k \in {"joined", "join"} -> CanJoin(p, q)
    [] o.k = "line" -> ~Last(p).z
    [] o.k = "close" -> ~Last(p).z /\ Len(Canon(p)[Len(p)].p) > 2 /\ Last(Last(p).p) # Last(p).p[1]
    [] o.k = "sub" -> TRUE
    [] o.k = "split" -> AllNice(p) /\ \A x \in DOMAIN o.s : Clear(p, o.s[x])
    [] OTHER -> FALSE
Step(p, d) == Append(p, <<Last(p)[1] + d[1], Last(p)[2] + d[2]>>)
Do(vals, o) ==
  LET p == vals[o.i] q == vals[o.j] new(x) == Append(vals, x) set(x) == [vals EXCEPT ![o.i] = x] IN
  CASE o.k = "reversed" -> new(Reversed(p))
    [] o.k \in {"copy", "norm", "topath"} -> new(p)
    [] o.k = "trans" -> new(Transform(p, o.m))
    [] o.k = "joined" -> new(Joined(p, q))
    [] o.k = "add" -> new(p \o q)
    [] o.k = "split" -> vals \o Split(p, [x \in DOMAIN o.s |-> Pos(p, o.s[x])])
    [] o.k = "join" -> set(Joined(p, q))
    [] o.k = "iadd" -> set(p \o q)
    [] o.k = "line" -> set(MapLast(p, LAMBDA s : [s EXCEPT !.p = Step(@, o.d)]))
    [] o.k = "close" -> set(MapLast(p, LAMBDA s : [s EXCEPT !.z = TRUE]))
    [] o.k = "sub" -> set(Append(p, [p |-> Step(<<o.at>>, o.d), z |-> FALSE]))
    [] OTHER -> vals
InPlace(o) == o.k \in {"join", "iadd", "line", "close", "sub"}
=============================================================================
