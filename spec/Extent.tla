------------------------------- MODULE Extent -------------------------------
(* The bounding box of a scene (spec/Paint.tla): of what is painted (strokes enlarged by half     *)
(* their line width), and the one a canvas reports itself (no line widths, unpainted paths too). *)
(* Here the line width unit is 1/5 pt, so that half of it counts tenths of points.              *)
EXTENDS Box, Paint
RECURSIVE PathHull(_)
PathHull(p) == IF p = <<>> THEN <<>> ELSE Join(Hull(Head(p).a), PathHull(Tail(p)))
PathBox(p) == PathHull(Canon(p))
Shape(d) == Deform(A!Select(A!Merged(d.attrs), {"trafo"}), d.path)
\* un: count drawings that are neither stroked nor filled, too
RECURSIVE DrawBox(_, _, _), OrnBox(_, _, _)
OrnBox(un, st, os) == IF os = <<>> THEN <<>>
                  ELSE Join(DrawBox(un, st, [path |-> Head(os).path, attrs |-> Head(os).v]), OrnBox(un, st, Tail(os)))
DrawBox(un, st0, d) ==
  LET as == A!Merged(d.attrs)
      st == Styles(st0, A!Select(as, StyleKinds), "both")
      f  == A!Select(as, {"filled"})
      s  == A!Select(as, {"stroked"})
      b  == PathBox(Shape(d))
      lw == IF s = <<>> THEN 0 ELSE Styles(st, A!Merged(s[1].v), "stroke").lw
  IN Join(Join(IF f = <<>> /\ (s # <<>> \/ ~un) THEN <<>> ELSE b, IF s = <<>> THEN <<>> ELSE Grow(b, lw, lw, lw, lw)),
          OrnBox(un, st, A!Select(as, {"orn"})))
RECURSIVE PlaceMap(_), ClipBox(_)
\* the total transformation and the box of the clip of a canvas, in the coordinates around the canvas
PlaceMap(gs) == IF gs = <<>> THEN AffId
                ELSE LET g == gs[Len(gs)] r == PlaceMap(SubSeq(gs, 1, Len(gs) - 1))
                     IN IF g.k = "trafo" THEN AffMul(g.m, r) ELSE r
ClipBox(gs) == LET i == CHOOSE i \in DOMAIN gs : gs[i].k = "clip"
               IN PathBox(Map(PlaceMap(SubSeq(gs, i + 1, Len(gs))), gs[i].path))
Cut(gs, b) == IF \E i \in DOMAIN gs : gs[i].k = "clip" THEN Meet(b, ClipBox(gs)) ELSE b
RECURSIVE PaintedBox(_, _, _), PaintedBoxes(_, _, _), ReportedBox(_), ReportedBoxes(_), ReportedOrn(_)
PaintedBox(un, st, it) ==
  IF it.t = "draw" THEN DrawBox(un, st, it)
  ELSE LET as == A!Merged(it.attrs) gs == A!Select(as, {"trafo", "clip"})
       IN Cut(gs, Transformed(PaintedBoxes(un, Styles(st, A!Select(as, StyleKinds), "both"), it.items), PlaceMap(gs)))
PaintedBoxes(un, st, its) == IF its = <<>> THEN <<>> ELSE Join(PaintedBox(un, st, Head(its)), PaintedBoxes(un, st, Tail(its)))
ReportedOrn(os) == IF os = <<>> THEN <<>>
                   ELSE Join(PathBox(Shape([path |-> Head(os).path, attrs |-> Head(os).v])), ReportedOrn(Tail(os)))
ReportedBox(it) ==
  IF it.t = "draw" THEN Join(PathBox(Shape(it)), ReportedOrn(A!Select(A!Merged(it.attrs), {"orn"})))
  ELSE LET gs == A!Select(A!Merged(it.attrs), {"trafo", "clip"})
       IN Cut(gs, Transformed(ReportedBoxes(it.items), PlaceMap(gs)))
ReportedBoxes(its) == IF its = <<>> THEN <<>> ELSE Join(ReportedBox(Head(its)), ReportedBoxes(Tail(its)))
=============================================================================
