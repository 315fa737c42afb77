---------------------------- MODULE PainterTrace ----------------------------
(* t.ev: painted axes: graphs (e.g) and axes along lines (e.a, e.x, e.p) with the strokes and texts seen. *)
EXTENDS TraceLib, Painter
VARIABLES tid, l, st, err
Near(a, b) == a - b \in -2..2
Line(o, w, flip) == IF flip THEN Near(o.x0, w.x1) /\ Near(o.y0, w.y1) /\ Near(o.x1, w.x0) /\ Near(o.y1, w.y0)
                    ELSE Near(o.x0, w.x0) /\ Near(o.y0, w.y0) /\ Near(o.x1, w.x1) /\ Near(o.y1, w.y1)
SameStroke(o, w) == o.c = w.c /\ (Line(o, w, FALSE) \/ Line(o, w, TRUE))
SameText(o, w) == o.c = w.c /\ Near(o.x, w.x) /\ Near(o.y, w.y)
SameTurn(o, w) == SameText(o, w) /\ Near(o.lx, w.lx) /\ Near(o.ly, w.ly)
Within(os, ws, Same(_, _)) == \A i \in DOMAIN os : \E j \in DOMAIN ws : Same(os[i], ws[j])
Within2(ws, os, Same(_, _)) == \A j \in DOMAIN ws : \E i \in DOMAIN os : Same(os[i], ws[j])
Judge(s, e, ws, wt) ==
  Clauses(s, << <<e.failed = "", "failed">>,
                <<Within(e.strokes, ws, SameStroke), "stroke-unexpected">>, <<Within2(ws, e.strokes, SameStroke), "stroke-missing">>, <<Len(e.strokes) = Len(ws), "stroke-count">>,
                <<Within(e.texts, wt, SameText), "text-place">>, <<Within2(wt, e.texts, SameText), "text-missing">>, <<Len(e.texts) = Len(wt), "text-count">>,
                <<Within(e.texts, wt, SameTurn), "text-direction">> >>)
TStep(s, e) ==
  IF e.k = "graph" THEN Judge(s, e, Strokes(e.g), Texts(e.g))
  ELSE LET r == Paint(e.a, e.x, e.p, <<0, 0>>)
           v == Judge(s, e, r.strokes, r.texts)
       IN IF v.err = "" /\ ~Near(e.ext, r.ext) THEN Bad(s, "extent") ELSE v
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
