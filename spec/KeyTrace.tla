------------------------------ MODULE KeyTrace ------------------------------
(* t.ev: one event per graph. e.plots: [titled, name, kind, dat (appearance of its data, <<>>: none visible)];              *)
(* e.texts: titles found in the key [name, x, y, w, h, d]; e.paints: [look, rel (points relative to the data), pts, ext, op]; *)
(* e.frame: <<>> or the path of the frame; lengths in thousandths of a point.                                                *)
EXTENDS TraceLib, Key
VARIABLES tid, l, st, err
Close(a, b) == a - b \in -12..12
NearP(p, q) == Close(p[1], q[1]) /\ Close(p[2], q[2])
\* paints of the key of one entry: [kind, entry]
PaintsOf(kind, i) == CASE kind = "linesymbol" -> << <<"line", i>>, <<"symbol", i>> >> [] kind = "nothing" -> <<>> [] OTHER -> << <<kind, i>> >>
RECURSIVE AllOf(_, _)
AllOf(kinds, i) == IF i > Len(kinds) THEN <<>> ELSE PaintsOf(kinds[i], i) \o AllOf(kinds, i + 1)
Same(c, texts, p, w) ==
  LET t == texts[w[2]]
      right == t.x - c.ss  left == right - c.sw  mid == (left + right) \div 2
  IN CASE w[1] \in {"line", "impulses", "hist", "function"} -> Len(p.pts) = 2 /\ NearP(p.pts[1], <<left, t.y>>) /\ NearP(p.pts[2], <<right, t.y>>)
       [] w[1] = "rect" -> p.pts = <<>> \/ (/\ Len(p.pts) >= 4
                                           /\ \A k \in DOMAIN p.pts : (Close(p.pts[k][1], left) \/ Close(p.pts[k][1], right)) /\ (Close(p.pts[k][2], t.y - c.sh \div 2) \/ Close(p.pts[k][2], t.y + c.sh \div 2))
                                           /\ ~(NearP(p.pts[1], p.pts[2])) /\ ~(NearP(p.pts[1], p.pts[3])))
       [] OTHER -> Len(p.pts) = Len(p.rel) /\ \A k \in DOMAIN p.pts : NearP(p.pts[k], <<mid + p.rel[k][1], t.y + p.rel[k][2]>>)
Union(bs) == <<SetMin({b[1] : b \in bs}), SetMin({b[2] : b \in bs}), SetMax({b[3] : b \in bs}), SetMax({b[4] : b \in bs})>>
TextBox(t) == <<t.x, t.y - t.d, t.x + t.w, t.y + t.h>>
TStep(s, e) ==
  LET c == e.c
      titled == SelectSeq(e.plots, LAMBDA p : p.titled)
      n == Len(titled)
      kinds == [i \in 1..n |-> titled[i].kind]
      want == AllOf(kinds, 1)
      texts == e.texts
      complete == Len(texts) = n /\ Len(e.paints) = Len(want)
      \* extent of column k
      Box(k) == Union({TextBox(texts[i]) : i \in InCol(k, n, c.columns)} \cup {e.paints[j].ext : j \in {j \in DOMAIN want : ColOf(want[j][2], n, c.columns) = k}})
      all == Union({Box(k) : k \in 0..NCols(n, c.columns) - 1})
      framed == c.border >= 0
      whole == IF framed THEN <<all[1] - c.border, all[2] - c.border, all[3] + c.border, all[4] + c.border>> ELSE all
      ink == IF framed THEN <<whole[1] - e.framelw, whole[2] - e.framelw, whole[3] + e.framelw, whole[4] + e.framelw>> ELSE whole
      area == e.area
  IN Clauses(s, << <<e.failed = "", "failed">>,
       <<[i \in DOMAIN texts |-> texts[i].name] = [i \in DOMAIN titled |-> titled[i].name], "entries">>,
       <<Len(e.paints) = Len(want), "illustrations">>,
       <<complete => \A j \in DOMAIN want : LET d == titled[want[j][2]].dat IN d = <<>> \/ e.paints[j].look = (IF want[j][1] = "symbol" /\ Len(d) > 1 THEN d[2] ELSE d[1]), "appearance">>,
       <<complete => \A j \in DOMAIN want : Same(c, texts, e.paints[j], want[j]), "illustration-place">>,
       <<complete => \A i \in 1..n : \A j \in 1..n : ColOf(i, n, c.columns) = ColOf(j, n, c.columns) => Close(texts[i].x, texts[j].x), "aligned">>,
       <<complete => \A i \in 1..n : LET f == CHOOSE j \in InCol(ColOf(i, n, c.columns), n, c.columns) : RowOf(j, n, c.columns) = 0 IN
                        Close(texts[i].y - texts[f].y, RefY(c, texts, i)), "rows">>,
       <<complete => \A i \in 1..n : RowOf(i, n, c.columns) = 0 => Close(texts[i].y, texts[1].y), "first-row">>,
       <<complete => \A k \in 1..NCols(n, c.columns) - 1 :
            LET a == CHOOSE i \in InCol(k - 1, n, c.columns) : RowOf(i, n, c.columns) = 0  b == CHOOSE i \in InCol(k, n, c.columns) : RowOf(i, n, c.columns) = 0 IN
            Close(texts[b].x - texts[a].x, Box(k - 1)[3] - Box(k - 1)[1] + c.cd), "columns">>,
       <<e.frame = (IF framed /\ n > 0 THEN e.frame ELSE <<>>), "frame-without-need">>,
       <<(complete /\ framed /\ n > 0) => e.frame # <<>> /\ \A k \in 1..4 : Close(e.frame[k], whole[k]), "frame">>,
       <<(complete /\ n > 0) => Close(ink[1], Placed(area[1], area[3], ink[3] - ink[1], c.h, c.hd, c.hin)), "horizontal">>,
       <<(complete /\ n > 0) => Close(ink[2], Placed(area[2], area[4], ink[4] - ink[2], c.v, c.vd, c.vin)), "vertical">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
