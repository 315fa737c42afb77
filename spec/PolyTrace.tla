------------------------------ MODULE PolyTrace ------------------------------
(* P02: one path per trace and the answers of the code to queries about it. Recorded numbers are 1/60000.    *)
EXTENDS TraceLib, Poly
VARIABLES tid, l, st, err
U == 1000
T == 40
Near(a, b, t) == a - b <= t /\ b - a <= t
NP(g, p) == Near(g[1], U * p[1], T) /\ Near(g[2], U * p[2], T)
\* a recorded path as points of the model
Grid(x) == (x + U \div 2) \div U
OnGrid(g) == \A i \in DOMAIN g : \A j \in DOMAIN g[i].p : \A c \in {1, 2} : Near(g[i].p[j][c], U * Grid(g[i].p[j][c]), T)
Shape(g) == [i \in DOMAIN g |-> [p |-> [j \in DOMAIN g[i].p |-> <<Grid(g[i].p[j][1]), Grid(g[i].p[j][2])>>], z |-> g[i].z]]
SamePath(g, path) == OnGrid(g) /\ Canon(Shape(g)) = Canon(path)
\* positions are recorded as <<subpath, parameter * 1000000>>; only compared for uniformly drawn segments
SamePos(path, g, q) ==
  /\ g[1] = q[1]
  /\ IF q[2] = 0 THEN TRUE ELSE Near(g[2], 1000000 * (q[2] - 1) + ((q[3] * 1000) \div SegLen(path[q[1]], q[2])) * 1000, 1200)
\* where one subpath ends and the next one begins, a sum of lengths may be either of the two
NearPos(path, g, x) == NP(g, At(path, x)) \/ \E i \in 1..Len(path) - 1 : ArcLen(path, SubEnd(path, i)) = x /\ NP(g, PointAt(path, SubEnd(path, i)))
Boundary(path, x) == \E i \in 1..Len(path) - 1 : ArcLen(path, SubEnd(path, i)) = x
TStep(s, e) ==
  IF e.k # "path" /\ e.failed # "" THEN Bad(s, "refused")
  ELSE CASE e.k = "path" -> Ok([path |-> e.path, uniform |-> e.uniform])
    [] e.k = "shape" -> Clauses(s, << <<SamePath(e.got, s.path), "path">> >>)
    [] e.k = "arclen" -> Clauses(s, << <<Near(e.got, U * Total(s.path), T), "arclen">>, <<Near(e.upper, U * Total(s.path), T), "arclen-upper">> >>)
    [] e.k = "ends" -> Clauses(s, << <<NP(e.first, PointAt(s.path, Begin(s.path))), "begin">>, <<NP(e.last, PointAt(s.path, End(s.path))), "end">>,
                                     <<NP(e.atbegin, PointAt(s.path, Begin(s.path))), "at-begin">>, <<NP(e.atend, PointAt(s.path, End(s.path))), "at-end">> >>)
    \* the point at arc lengths (one by one, as a list, as parameters), the parameter found, and its arc length
    [] e.k = "at" -> Clauses(s, << <<\A i \in DOMAIN e.s : NearPos(s.path, e.got[i], e.s[i]), "at">>, <<\A i \in DOMAIN e.s : NearPos(s.path, e.byparam[i], e.s[i]), "at-parameter">>,
                                   <<\A i \in DOMAIN e.s : Boundary(s.path, e.s[i]) \/ e.pos[i][1] = Pos(s.path, e.s[i])[1], "subpath">>, <<~s.uniform \/ \A i \in DOMAIN e.s : Boundary(s.path, e.s[i]) \/ SamePos(s.path, e.pos[i], Pos(s.path, e.s[i])), "parameter">>,
                                   <<\A i \in DOMAIN e.s : LET q == Pos(s.path, e.s[i]) IN Near(e.back[i], U * (IF q[2] = 0 THEN ArcLen(s.path, q) ELSE e.s[i]), T), "arc-length-of-parameter">> >>)
    [] e.k = "dir" -> Clauses(s, << <<\A i \in DOMAIN e.s : NP(e.point[i], At(s.path, e.s[i])) /\ Near(e.tip[i][1], U * (At(s.path, e.s[i])[1] + Dir(s.path, Pos(s.path, e.s[i]))[1]), T) /\ Near(e.tip[i][2], U * (At(s.path, e.s[i])[2] + Dir(s.path, Pos(s.path, e.s[i]))[2]), T), "tangent">>,
                                    <<\A i \in DOMAIN e.s : NP(e.trafo[i], LET a == At(s.path, e.s[i]) d == Dir(s.path, Pos(s.path, e.s[i])) IN <<a[1] + 2 * d[1] - d[2], a[2] + 2 * d[2] + d[1]>>), "trafo">>,
                                    <<\A i \in DOMAIN e.s : NP(e.rot[i], LET d == Dir(s.path, Pos(s.path, e.s[i])) IN <<2 * d[1] - d[2], 2 * d[2] + d[1]>>), "rotation">>, <<\A i \in DOMAIN e.curv : Near(e.curv[i], 0, T), "curvature">> >>)
    [] e.k = "reversed" -> Clauses(s, << <<SamePath(e.got, Reversed(s.path)), "reversed">>, <<\A i \in DOMAIN e.s : NearPos(Reversed(s.path), e.at[i], e.s[i]), "at-of-reversed">> >>)
    [] e.k = "split" -> LET want == Split(s.path, [i \in DOMAIN e.s |-> Pos(s.path, e.s[i])]) IN
          Clauses(s, << <<Len(e.got) = Len(want), "number-of-pieces">>, <<Len(e.got) # Len(want) \/ \A i \in DOMAIN want : SamePath(e.got[i], want[i]), "piece">>,
                        <<Len(e.got) # Len(want) \/ \A i \in DOMAIN want : Near(e.lens[i], U * Total(want[i]), T), "piece-length">> >>)
    [] e.k = "joined" -> Clauses(s, << <<SamePath(e.got, Joined(s.path, e.other)), "joined">> >>)
    [] e.k = "added" -> Clauses(s, << <<SamePath(e.got, s.path \o e.other), "added">> >>)
    \* arithmetic of parameters is arithmetic of their arc lengths
    [] e.k = "arith" -> LET a == e.s[1] b == e.s[2] P(g, x) == NearPos(s.path, g, x) IN
          Clauses(s, << <<P(e.plus, a + b), "plus">>, <<P(e.minus, a - b), "minus">>, <<P(e.rminus, b - a), "subtracted-from">>, <<P(e.times, 2 * a), "times">>, <<P(e.half, a \div 2), "divided">>,
                        <<P(e.plusp, a + b), "plus-parameter">>, <<P(e.minusp, a - b), "minus-parameter">>, <<P(e.neg, -a), "negated">>,
                        <<e.lt = (Before(Pos(s.path, a), Pos(s.path, b)) /\ Pos(s.path, a) # Pos(s.path, b)) /\ e.gt = (Before(Pos(s.path, b), Pos(s.path, a)) /\ Pos(s.path, a) # Pos(s.path, b)), "order">> >>)
    \* an arbitrary smooth path: the answers have to agree with each other
    [] e.k = "law" -> LET n == Len(e.s) IN
          Clauses(s, << <<e.upper >= e.total - T /\ e.upper <= e.total + 2 * T, "bounds-of-arclen">>, <<\A i \in 1..n : Near(e.back[i], e.s[i], T), "arc-length-of-parameter">>,
                        <<Len(e.lens) = n + 1 /\ \A i \in 1..n + 1 : Near(e.lens[i], (IF i > n THEN e.total ELSE e.s[i]) - (IF i = 1 THEN 0 ELSE e.s[i - 1]), 2 * T), "piece-length">>,
                        <<\A i \in 1..n : NearPt(e.at[i], e.begins[i + 1], T) /\ NearPt(e.at[i], e.ends[i], T), "pieces-connect">>, <<\A i \in 1..n : NearPt(e.at[i], e.rev[i], T), "at-of-reversed">>,
                        <<\A i \in 1..n : NearPt(e.tip[i], e.revtip[i], 10 * T), "tangent-of-reversed">>, <<\A i \in 1..n : Near(e.piecetip[i][1], e.tip[i][1], 10 * T) /\ Near(e.piecetip[i][2], e.tip[i][2], 10 * T), "tangent-of-piece">>,
                        <<NearPt(e.ends[n + 1], e.last, T) /\ NearPt(e.begins[1], e.first, T), "ends">>, <<\A i \in DOMAIN e.at : e.at[i][1] >= e.box[1] - T /\ e.at[i][1] <= e.box[3] + T /\ e.at[i][2] >= e.box[2] - T /\ e.at[i][2] <= e.box[4] + T, "bounding-box">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = [path |-> <<>>, uniform |-> FALSE] /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
