----------------------------- MODULE PaintTrace -----------------------------
(* The operator streams of written PostScript pages, PDF content streams and SVG documents, run   *)
(* by graphics-state machines; every painting operator must paint what the scene paints next.    *)
EXTENDS TraceLib, Paint
VARIABLES tid, l, st, err

\* ---- comparing one painting event ---------------------------------------------------------------
Near(s, t, d) == Len(s) = Len(t) /\ \A i \in DOMAIN s : s[i] - t[i] \in -d..d
Min(a, b) == IF a < b THEN a ELSE b
\* hue in sixths (600/6 = 100 per sixth is not needed: scenes use c[1] = sixths * 100 / 6 rounded by the recorder)
HsbRgb(c) == LET h == c[1] s == c[2] v == c[3] w == (v * (100 - s)) \div 100
             IN CASE h = 0 -> <<v, w, w>> [] h = 1 -> <<v, v, w>> [] h = 2 -> <<w, v, w>> [] h = 3 -> <<w, v, v>>
                  [] h = 4 -> <<w, w, v>> [] h = 5 -> <<v, w, v>> [] OTHER -> <<v, w, w>>
Rgb(c) == CASE c.sp = "gray" -> <<c.c[1], c.c[1], c.c[1]>>
            [] c.sp = "rgb" -> c.c
            [] c.sp = "hsb" -> HsbRgb(c.c)
            [] c.sp = "cmyk" -> [i \in 1..3 |-> 100 - Min(100, c.c[i] + c.c[4])]
            [] OTHER -> <<-1, -1, -1>>
ColorOk(fmt, e, g) ==
  IF fmt = "svg" THEN Near([i \in 1..3 |-> (Rgb(e)[i] * 255) \div 100], g.c, 1)
  ELSE IF g.sp = e.sp THEN g.c = e.c
  ELSE e.sp = "hsb" /\ g.sp = "rgb" /\ g.c = Rgb(e)
\* the two sides of one painting event; "" or the first thing that differs
Diff(fmt, e, g) ==
  FirstBad(<< <<e.k = g.k, "paint-order">>, <<e.path = g.path, "geometry">>, <<e.clips = g.clips, "clip">>,
              <<ColorOk(fmt, e.color, g.color), "color">>, <<e.op = g.op, "opacity">>,
              <<e.k = "stroke" \/ e.rule = g.rule, "fillrule">>,
              <<e.k = "fill" \/ e.lw = g.lw, "linewidth">>, <<e.k = "fill" \/ e.cap = g.cap, "linecap">>,
              <<e.k = "fill" \/ e.join = g.join, "linejoin">>, <<e.k = "fill" \/ e.miter = g.miter, "miterlimit">>,
              <<e.k = "fill" \/ e.lin = g.lin, "stroke-transformation">>,
              <<e.k = "fill" \/ (Near(e.dash, g.dash, 1) /\ (e.dash = <<>> \/ e.doff = g.doff)), "dash">> >>, 1)
RECURSIVE Consume(_, _, _)
\* s: machine state, gs: painting events performed by one operator
Consume(fmt, s, gs) ==
  IF gs = <<>> THEN Ok(s)
  ELSE IF s.exp = <<>> THEN Bad(s, "painted-too-much")
  ELSE LET d == Diff(fmt, Head(s.exp), Head(gs))
       IN IF d # "" THEN Bad(s, d) ELSE Consume(fmt, [s EXCEPT !.exp = Tail(@)], Tail(gs))

TInit(t) == [exp |-> Paints(t.scene), stack |-> <<>>, path |-> <<>>, clip |-> FALSE, bt |-> FALSE,
             gs |-> [St0 EXCEPT !.lw = -1, !.miter = IF t.fmt = "svg" THEN 4000 ELSE @]]
Pt(a, i) == <<a[2 * i - 1], a[2 * i]>>
Pts(a) == [i \in 1..(Len(a) \div 2) |-> Pt(a, i)]
DevPts(s, a) == [i \in DOMAIN Pts(a) |-> AffAp(s.gs.ctm, Pts(a)[i])]
PathOp(s, e) == IF e.o # "m" /\ s.path = <<>> THEN Bad(s, "no-current-point")
                ELSE Ok([s EXCEPT !.path = Append(@, [o |-> e.o, a |-> DevPts(s, e.a)])])
Param(g, e) ==
  CASE e.o = "lw" -> [g EXCEPT !.lw = e.a[1]]
    [] e.o = "cap" -> [g EXCEPT !.cap = e.a[1]]
    [] e.o = "join" -> [g EXCEPT !.join = e.a[1]]
    [] e.o = "miter" -> [g EXCEPT !.miter = e.a[1]]
    [] e.o = "dash" -> [g EXCEPT !.doff = e.a[1], !.dash = Tail(e.a)]
    [] e.o = "color" -> [g EXCEPT !.sc = [sp |-> e.sp, c |-> e.a], !.fc = [sp |-> e.sp, c |-> e.a]]
    [] e.o = "scolor" -> [g EXCEPT !.sc = [sp |-> e.sp, c |-> e.a]]
    [] e.o = "fcolor" -> [g EXCEPT !.fc = [sp |-> e.sp, c |-> e.a]]
    [] e.o = "alpha" -> [g EXCEPT !.so = IF e.a[1] < 0 THEN @ ELSE e.a[1], !.fo = IF e.a[2] < 0 THEN @ ELSE e.a[2]]
    [] e.o = "concat" -> [g EXCEPT !.ctm = AffMul(@, e.a)]
ParamOps == {"lw", "cap", "join", "miter", "dash", "color", "scolor", "fcolor", "alpha", "concat"}
Over(s) == Clauses(s, << <<s.exp = <<>>, "painted-too-little">>, <<s.stack = <<>>, "unbalanced-save">>, <<s.path = <<>> \/ ~s.clip, "pending-clip">> >>)

\* ---- PostScript: the current path is part of the graphics state --------------------------------------
PSStep(s, e) ==
  CASE e.o = "save" -> Ok([s EXCEPT !.stack = Append(@, [gs |-> s.gs, path |-> s.path])])
    [] e.o = "restore" -> IF s.stack = <<>> THEN Bad(s, "restore-without-save")
                          ELSE LET t == s.stack[Len(s.stack)]
                               IN Ok([s EXCEPT !.gs = t.gs, !.path = t.path, !.stack = SubSeq(@, 1, Len(@) - 1)])
    [] e.o = "newpath" -> Ok([s EXCEPT !.path = <<>>])
    [] e.o \in {"m", "l", "c", "z"} -> PathOp(s, e)
    [] e.o = "clip" -> Ok([s EXCEPT !.gs.clips = Append(@, Canon(s.path))])
    [] e.o \in {"fill", "eofill"} ->
         Consume("ps", [s EXCEPT !.path = <<>>], Fill([s.gs EXCEPT !.rule = IF e.o = "fill" THEN 0 ELSE 1], s.path))
    [] e.o = "stroke" -> Consume("ps", [s EXCEPT !.path = <<>>], Stroke(s.gs, s.path))
    [] e.o \in ParamOps -> Ok([s EXCEPT !.gs = Param(@, e)])
    [] e.o = "over" -> Over(s)
    [] OTHER -> Bad(s, "unknown-operator")

\* ---- PDF: path objects, pending clips, separate stroke and fill colours ----------------------------
PDFPaint(s, e) ==
  LET g  == [s.gs EXCEPT !.rule = IF e.o \in {"f*", "B*"} THEN 1 ELSE 0]
      fs == (IF e.o \in {"f", "f*", "B", "B*"} THEN Fill(g, s.path) ELSE <<>>)
            \o (IF e.o \in {"S", "B", "B*"} THEN Stroke(g, s.path) ELSE <<>>)
      g2 == IF s.clip THEN [s.gs EXCEPT !.clips = Append(@, Canon(s.path))] ELSE s.gs
  IN IF s.path = <<>> /\ ~s.clip THEN Ok([s EXCEPT !.gs = g2])
     ELSE Consume("pdf", [s EXCEPT !.path = <<>>, !.clip = FALSE, !.gs = g2], fs)
PDFStep(s, e) ==
  IF e.o = "over" THEN Over(s)
  ELSE IF e.o \in {"f", "f*", "B", "B*", "S", "n"} THEN IF s.bt THEN Bad(s, "path-in-text-object") ELSE PDFPaint(s, e)
  ELSE IF s.clip THEN Bad(s, "operator-between-clip-and-path-end")
  ELSE IF e.o \in {"m", "l", "c", "z"} THEN IF s.bt THEN Bad(s, "path-in-text-object") ELSE PathOp(s, e)
  ELSE IF e.o = "W" THEN IF s.path = <<>> THEN Bad(s, "clip-without-path") ELSE Ok([s EXCEPT !.clip = TRUE])
  ELSE IF s.path # <<>> THEN Bad(s, "operator-inside-path")
  ELSE CASE e.o = "save" -> IF s.bt THEN Bad(s, "save-in-text-object") ELSE Ok([s EXCEPT !.stack = Append(@, [gs |-> s.gs, path |-> <<>>])])
    [] e.o = "restore" -> IF s.stack = <<>> THEN Bad(s, "restore-without-save")
                          ELSE IF s.bt THEN Bad(s, "restore-in-text-object")
                          ELSE Ok([s EXCEPT !.gs = s.stack[Len(s.stack)].gs, !.stack = SubSeq(@, 1, Len(@) - 1)])
    [] e.o = "BT" -> IF s.bt THEN Bad(s, "nested-text-object") ELSE Ok([s EXCEPT !.bt = TRUE])
    [] e.o = "ET" -> IF s.bt THEN Ok([s EXCEPT !.bt = FALSE]) ELSE Bad(s, "end-of-text-without-begin")
    [] e.o = "text" -> IF s.bt THEN Ok(s) ELSE Bad(s, "text-operator-outside-text-object")
    [] e.o \in ParamOps -> IF s.bt /\ e.o = "concat" THEN Bad(s, "transformation-in-text-object") ELSE Ok([s EXCEPT !.gs = Param(@, e)])
    [] OTHER -> Bad(s, "unknown-operator")

\* ---- SVG: inherited presentation attributes, y pointing down ---------------------------------------
\* optional attributes are sequences of length 0 or 1
FlipM(m) == <<m[1], -m[2], -m[3], m[4], m[5], -m[6]>>
FlipPath(p) == [i \in DOMAIN p |-> [o |-> p[i].o, a |-> [j \in DOMAIN Pts(p[i].a) |-> <<Pts(p[i].a)[j][1], -Pts(p[i].a)[j][2]>>]]]
Opt(o, d) == IF o = <<>> THEN d ELSE o[1]
Paintable(c) == c # <<>>
SVGInherit(g, e) ==
  LET m == IF e.tr = <<>> THEN g.ctm ELSE AffMul(g.ctm, FlipM(e.tr[1]))
  IN [g EXCEPT !.ctm = m,
      !.clips = IF e.clip = <<>> THEN @ ELSE Append(@, Canon(Map(m, FlipPath(e.clip[1])))),
      !.sc = [sp |-> "svg", c |-> Opt(e.stroke, g.sc.c)], !.fc = [sp |-> "svg", c |-> Opt(e.fill, g.fc.c)],
      !.lw = Opt(e.lw, @), !.cap = Opt(e.cap, @), !.join = Opt(e.join, @), !.miter = Opt(e.miter, @),
      !.dash = Opt(e.dash, @), !.doff = Opt(e.doff, @), !.rule = Opt(e.rule, @),
      !.so = (Opt(e.sop, @) * Opt(e.op, 100)) \div 100, !.fo = (Opt(e.fop, @) * Opt(e.op, 100)) \div 100]
SVGPaints(g, e) == LET p == Map(g.ctm, FlipPath(e.d))
                   IN (IF Paintable(g.fc.c) THEN Fill(g, p) ELSE <<>>) \o (IF Paintable(g.sc.c) THEN Stroke(g, p) ELSE <<>>)
SVGStep(s, e) ==
  CASE e.o = "start" ->
         LET g == SVGInherit(IF s.stack = <<>> THEN [s.gs EXCEPT !.sc = [sp |-> "svg", c |-> <<>>], !.fc = [sp |-> "svg", c |-> <<0, 0, 0>>]] ELSE s.gs, e)
             s2 == [s EXCEPT !.stack = Append(@, s.gs), !.gs = g]
         IN IF e.tag = "path" THEN Consume("svg", s2, SVGPaints(g, e)) ELSE Ok(s2)
    [] e.o = "end" -> IF s.stack = <<>> THEN Bad(s, "unbalanced-element")
                      ELSE Ok([s EXCEPT !.gs = s.stack[Len(s.stack)], !.stack = SubSeq(@, 1, Len(@) - 1)])
    [] e.o = "over" -> Over(s)
    [] OTHER -> Bad(s, "unknown-element")

TStep(s, e, t) == CASE t.fmt = "ps" -> PSStep(s, e) [] t.fmt = "pdf" -> PDFStep(s, e) [] t.fmt = "svg" -> SVGStep(s, e)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = TInit(Traces[i]) /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1], Traces[tid]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
