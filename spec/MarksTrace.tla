----------------------------- MODULE MarksTrace -----------------------------
(* t.ev: one event per plot: [k |-> kind, w, ..., edges |-> recorded unit edges, cells |-> recorded unit cells, caps] *)
EXTENDS TraceLib, Marks
VARIABLES tid, l, st, err
SetE(x) == {x[i] : i \in DOMAIN x}
Rows(e) == IF e.auto THEN Auto(e.ps, e.vs, e.pp) ELSE e.rows
Want(e) == CASE e.k = "error" -> ErrorEdges(e.w, e.rows)
             [] e.k = "impulse" -> Impulses(e.w, e.rows, e.f, e.vi)
             [] e.k = "box" -> Turn(Boxes(e.w, Rows(e), e.f), e.vi)
             [] e.k = "step" -> Turn(Steps(e.w, Rows(e), e.f), e.vi)
             [] e.k = "full" -> Turn(FullBoxes(e.w, Rows(e), e.f), e.vi)
             [] OTHER -> {}
WantC(e) == CASE e.k = "rect" -> UNION {RectCells(e.w, e.rows[k]) : k \in DOMAIN e.rows}
              [] e.k \in {"area", "areastep"} -> TurnC(Area(e.w, Rows(e), e.f), e.vi)
              [] e.k = "bar" -> TurnC(UNION {BarCells(e.w, k, e.rows[k], e.s, SetE(e.rel), e.f) : k \in DOMAIN e.rows}, e.vi)
              [] OTHER -> {}
WantCaps(e) == IF e.k = "error" THEN Caps(e.w, e.rows) ELSE {}
\* arrows: in thousandths of a grid unit: e.rows of [p, len, dir] (dir in quarter turns), e.pos in halves
DirX(d) == CASE d = 0 -> 1 [] d = 2 -> -1 [] OTHER -> 0
DirY(d) == CASE d = 1 -> 1 [] d = 3 -> -1 [] OTHER -> 0
Shown(w, r) == (\A i \in 1..2 : r.p[i] # <<>> /\ In(w, r.p[i][1])) /\ r.len > 0
ArrowOf(w, r, pos) == LET x == 1000 * (r.p[1][1] - w.lo)  y == 1000 * (r.p[2][1] - w.lo)  a == (pos * r.len) \div 2  b == r.len - a IN
   <<x - a * DirX(r.dir), y - a * DirY(r.dir), x + b * DirX(r.dir), y + b * DirY(r.dir)>>
Near(a, b) == \A i \in 1..4 : a[i] - b[i] \in -3..3
ArrowsOk(e) == LET want == SelectSeq(e.rows, LAMBDA r : Shown(e.w, r)) IN
   Len(want) = Len(e.arrows) /\ \A k \in DOMAIN want : Near(ArrowOf(e.w, want[k], e.pos), e.arrows[k])
TStep(s, e) ==
  LET got == SetE(e.edges)  gotc == SetE(e.cells)  want == Want(e)  wantc == WantC(e) IN
  Clauses(s, << <<e.failed = "", "refused">>,
                <<~e.off, "off-grid">>,
                <<got \subseteq want, "too-many-strokes">>, <<want \subseteq got, "strokes-missing">>,
                <<gotc \subseteq wantc, "too-much-area">>, <<wantc \subseteq gotc, "area-missing">>,
                <<SetE(e.caps) = WantCaps(e), "caps">>,
                <<e.k = "arrow" => ArrowsOk(e), "arrows">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
