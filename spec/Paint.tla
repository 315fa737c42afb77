-------------------------------- MODULE Paint --------------------------------
(* What a canvas means: the sequence of strokes and fills it paints, each with its geometry in   *)
(* device space and every attribute in force.                                                    *)
(*                                                                                              *)
(* A scene is a tree: [t |-> "canvas", attrs, items] and [t |-> "draw", path, attrs].            *)
(* Units: coordinates and translations 1/10 pt; line widths quarters of the default width; dash  *)
(* lengths and miter limits 1/1000; colour components and opacities 1/100.                      *)
EXTENDS Integers, Sequences, Affine
StyleKinds == {"lw", "cap", "join", "miter", "dash", "linestyle", "color", "opacity", "rule"}
A == INSTANCE Attrs WITH ExclusiveKinds <- StyleKinds \cup {"stroked", "filled"},
                         Before <- [k \in {"lw"} |-> {"dash", "linestyle"}]

St0 == [lw |-> 4, cap |-> 0, join |-> 0, miter |-> 10000, dash |-> <<>>, doff |-> 0,
        sc |-> [sp |-> "gray", c |-> <<0>>], fc |-> [sp |-> "gray", c |-> <<0>>],
        so |-> 100, fo |-> 100, rule |-> 0, ctm |-> AffId, clips |-> <<>>]

\* a dash given relative to the line width is scaled by the line width in force
DashOf(st, a) == [i \in DOMAIN a.v |-> IF a.rel THEN a.v[i] * 250 * st.lw ELSE a.v[i] * 1000]
WithDash(st, a) == [st EXCEPT !.dash = DashOf(st, a), !.doff = a.off * 1000]
Style(st, a, which) ==
  CASE a.k = "lw"     -> [st EXCEPT !.lw = a.v]
    [] a.k = "cap"    -> [st EXCEPT !.cap = a.v]
    [] a.k = "join"   -> [st EXCEPT !.join = a.v]
    [] a.k = "miter"  -> [st EXCEPT !.miter = a.v]
    [] a.k = "dash"   -> WithDash(st, a)
    [] a.k = "linestyle" -> [WithDash(st, a) EXCEPT !.cap = a.cap]
    [] a.k = "rule"   -> [st EXCEPT !.rule = a.v]
    [] a.k = "color"  -> LET c == [sp |-> a.sp, c |-> a.c]
                         IN [st EXCEPT !.sc = IF which = "fill" THEN @ ELSE c, !.fc = IF which = "stroke" THEN @ ELSE c]
    [] a.k = "opacity" -> [st EXCEPT !.so = IF which = "fill" THEN @ ELSE a.v, !.fo = IF which = "stroke" THEN @ ELSE a.v]
    [] OTHER -> st
RECURSIVE Styles(_, _, _)
Styles(st, as, which) == IF as = <<>> THEN st ELSE Styles(Style(st, Head(as), which), Tail(as), which)

\* ---- paths: sequences of [o |-> "m" | "l" | "c" | "z", a |-> points] ------------------------------
Map(m, path) == [i \in DOMAIN path |-> [o |-> path[i].o, a |-> [j \in DOMAIN path[i].a |-> AffAp(m, path[i].a[j])]]]
\* canonical form: no moveto that is directly followed by another one or ends the path, no closing
\* line back to the start of a subpath in front of a closepath
RECURSIVE StartOf(_, _)
StartOf(p, i) == IF i = 0 THEN <<0, 0>> ELSE IF p[i].o = "m" THEN p[i].a[1] ELSE StartOf(p, i - 1)
Keep(p, i) ==
  IF p[i].o = "m" THEN i < Len(p) /\ p[i + 1].o # "m"
  ELSE IF p[i].o = "l" THEN ~(i < Len(p) /\ p[i + 1].o = "z" /\ p[i].a[1] = StartOf(p, i) /\ p[i - 1].o # "m")
  ELSE TRUE
RECURSIVE KeepFrom(_, _)
KeepFrom(p, i) == IF i > Len(p) THEN <<>> ELSE (IF Keep(p, i) THEN <<p[i]>> ELSE <<>>) \o KeepFrom(p, i + 1)
Canon(p) == KeepFrom(p, 1)

\* ---- painting events -----------------------------------------------------------------------------
StrokeOf(st, p) == [k |-> "stroke", path |-> p, lin |-> AffLin(st.ctm), lw |-> st.lw, cap |-> st.cap, join |-> st.join,
                    miter |-> st.miter, dash |-> st.dash, doff |-> st.doff, color |-> st.sc, op |-> st.so, clips |-> st.clips,
                    rule |-> 0]
FillOf(st, p) == [k |-> "fill", path |-> p, lin |-> AffLin(st.ctm), lw |-> 0, cap |-> 0, join |-> 0,
                  miter |-> 0, dash |-> <<>>, doff |-> 0, color |-> st.fc, op |-> st.fo, clips |-> st.clips,
                  rule |-> st.rule]
\* a path is stroked / filled (empty paths leave no marks)
Stroke(st, p) == IF Canon(p) = <<>> THEN <<>> ELSE <<StrokeOf(st, Canon(p))>>
Fill(st, p)   == IF Canon(p) = <<>> THEN <<>> ELSE <<FillOf(st, Canon(p))>>

\* ---- the meaning of a scene ----------------------------------------------------------------------
RECURSIVE Deform(_, _), PaintDraw(_, _), Ornaments(_, _)
\* ornaments are painted above the path, with the attributes of the drawing but not those of its stroke or fill
Ornaments(st, os) == IF os = <<>> THEN <<>>
                     ELSE PaintDraw(st, [path |-> Head(os).path, attrs |-> Head(os).v]) \o Ornaments(st, Tail(os))
Deform(as, p) == IF as = <<>> THEN p ELSE Deform(Tail(as), Map(Head(as).m, p))
PaintDraw(st0, d) ==
  LET as  == A!Merged(d.attrs)
      st  == Styles(st0, A!Select(as, StyleKinds), "both")
      p   == Map(st.ctm, Deform(A!Select(as, {"trafo"}), d.path))
      f   == A!Select(as, {"filled"})
      s   == A!Select(as, {"stroked"})
  IN (IF f = <<>> THEN <<>> ELSE Fill(Styles(st, A!Merged(f[1].v), "fill"), p))
     \o (IF s = <<>> THEN <<>> ELSE Stroke(Styles(st, A!Merged(s[1].v), "stroke"), p))
     \o Ornaments(st, A!Select(as, {"orn"}))
\* transformations and the clip of a canvas apply to its content from left to right, the last one outermost
RECURSIVE Place(_, _)
Place(st, gs) == IF gs = <<>> THEN st
                 ELSE LET g == gs[Len(gs)]
                          r == IF g.k = "trafo" THEN [st EXCEPT !.ctm = AffMul(@, g.m)]
                               ELSE [st EXCEPT !.clips = Append(@, Canon(Map(st.ctm, g.path)))]
                      IN Place(r, SubSeq(gs, 1, Len(gs) - 1))
RECURSIVE PaintItems(_, _), PaintItem(_, _)
PaintItem(st, it) ==
  IF it.t = "draw" THEN PaintDraw(st, it)
  ELSE LET as == A!Merged(it.attrs)
       IN PaintItems(Place(Styles(st, A!Select(as, StyleKinds), "both"), A!Select(as, {"trafo", "clip"})), it.items)
PaintItems(st, its) == IF its = <<>> THEN <<>> ELSE PaintItem(st, Head(its)) \o PaintItems(st, Tail(its))
Paints(scene) == PaintItem(St0, scene)
=============================================================================
