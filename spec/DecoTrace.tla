------------------------------ MODULE DecoTrace ------------------------------
(* E01: what was painted for a decorated path. Recorded numbers are 1/60000; colours are indices (0: none).    *)
EXTENDS TraceLib, Deco
VARIABLES tid, l, st, err
T == 80
R(path, f) == [i \in DOMAIN path |-> [p |-> [j \in DOMAIN path[i].p |-> <<f * path[i].p[j][1], f * path[i].p[j][2]>>], z |-> path[i].z]]
Op(op, color, subs) == [op |-> op, color |-> color, subs |-> subs]
OpIf(op, color, subs) == IF color = 0 \/ subs = <<>> THEN <<>> ELSE <<Op(op, color, subs)>>
Arrow(path, a) == LET h == R(Canon(<<[p |-> Head5(path, a), z |-> TRUE]>>), 200) IN OpIf("fill", a.fill, h) \o OpIf("stroke", a.stroke, h)
RECURSIVE Arrows(_, _)
Arrows(path, items) == IF items = <<>> THEN <<>> ELSE (IF items[1].t = "arrow" THEN Arrow(path, items[1]) ELSE <<>>) \o Arrows(path, Tail(items))
Want(e) == OpIf("fill", e.fill, R(Canon(e.path), 1000)) \o OpIf("stroke", e.stroke, R(Canon(Stroked(e.path, e.items)), 1000)) \o Arrows(e.path, e.items)
RECURSIVE Centers(_, _)
Centers(path, items) == IF items = <<>> THEN <<>> ELSE (IF items[1].t = "text" THEN <<Center50(path, items[1])>> ELSE <<>>) \o Centers(path, Tail(items))
SameOp(a, b) == a.op = b.op /\ a.color = b.color
Near(a, b, t) == a - b <= t /\ b - a <= t
\* ---- the colour seen in the middle of the i-th part of a path drawn in n colours ---------------------------
OnSeg(p, a, b) ==
  LET x == b[1] - a[1] y == b[2] - a[2] u == p[1] - a[1] v == p[2] - a[2] IN
  /\ Abs(u * y - v * x) <= 4 * (Abs(x) + Abs(y)) /\ u * x + v * y >= 0 /\ u * x + v * y <= x * x + y * y
Covers(o, p) == \E i \in DOMAIN o.subs : \E j \in 1..Len(o.subs[i].p) - 1 : OnSeg(p, o.subs[i].p[j], o.subs[i].p[j + 1])
Seen(got, p) == LET c == {k \in DOMAIN got : Covers(got[k], p)} IN IF c = {} THEN 0 ELSE got[CHOOSE k \in c : \A m \in c : m <= k].color
\* ---- hatching: clipped parallel lines, the distance e.dist apart, which leave nothing of the box uncovered ----
\* e.dir is the normal of the lines in 1/5; recorded numbers times 5
Off(e, p) == e.dir[1] * p[1] + e.dir[2] * p[2]
Along(e, p) == e.dir[1] * p[2] - e.dir[2] * p[1]
Corners(b) == {<<b[1], b[2]>>, <<b[3], b[2]>>, <<b[1], b[4]>>, <<b[3], b[4]>>}
Hatched(e) ==
  LET lines == e.lines c == Corners(e.box) d == 5 * 1000 * e.dist t == 5 * T IN
  << <<\A i \in DOMAIN lines : lines[i].clips = 1, "clipped">>, <<\A i \in DOMAIN lines : Near(Off(e, lines[i].a), Off(e, lines[i].b), t), "direction">>,
     <<\A i \in 1..Len(lines) - 1 : Near(Off(e, lines[i + 1].a) - Off(e, lines[i].a), d, t), "distance">>,
     <<lines # <<>> /\ \A q \in c : \E i \in DOMAIN lines : Off(e, lines[i].a) - d <= Off(e, q) + t, "first-line">>,
     <<\A q \in c : Off(e, lines[1].a) <= Off(e, q) + d + t /\ Off(e, lines[Len(lines)].a) >= Off(e, q) - d - t, "covered">>,
     <<\A q \in c : \A i \in DOMAIN lines : (Along(e, lines[i].a) - t <= Along(e, q) /\ Along(e, q) <= Along(e, lines[i].b) + t) \/ (Along(e, lines[i].b) - t <= Along(e, q) /\ Along(e, q) <= Along(e, lines[i].a) + t), "length-of-lines">> >>
TStep(s, e) ==
  IF e.failed # "" THEN Bad(s, "refused")
  ELSE CASE e.k = "paint" -> LET w == Want(e) IN
          Clauses(s, << <<Len(e.got) = Len(w), "number-of-paints">>, <<Len(e.got) # Len(w) \/ \A i \in DOMAIN w : SameOp(w[i], e.got[i]), "order-and-colour">>,
                        <<Len(e.got) # Len(w) \/ \A i \in DOMAIN w : SameOp(w[i], e.got[i]) => Same(e.got[i].subs, w[i].subs, T), "painted-path">>,
                        <<Len(e.centers) = Len(Centers(e.path, e.items)), "number-of-texts">>,
                        <<\A i \in DOMAIN e.centers : NearPt(e.centers[i], [c \in {1, 2} |-> 20 * Centers(e.path, e.items)[i][c]], T), "text-position">> >>)
    [] e.k = "gradient" -> Clauses(s, << <<\A i \in 1..e.steps : Seen(e.got, At(e.path, (Total(e.path) * (2 * i - 1)) \div (2 * e.steps))) = i, "colour">> >>)
    [] e.k = "ranges" -> LET w == R(Canon(Without(e.path, 1, Merged({e.ranges[i] : i \in DOMAIN e.ranges}))), 1000) IN
          Clauses(s, << <<Len(e.got) = Len(w) /\ (\A i \in DOMAIN w : \E j \in DOMAIN w : Same(<<e.got[j]>>, <<w[i]>>, T)) /\ (\A j \in DOMAIN w : \E i \in DOMAIN w : Same(<<e.got[j]>>, <<w[i]>>, T)), "left-over">> >>)
    [] OTHER -> Clauses(s, Hatched(e))

Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
