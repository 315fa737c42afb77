--------------------------------- MODULE T1 ---------------------------------
(* The Type 1 charstring machine: glyph programs of a font (its subroutines and its glyphs) executed command by   *)
(* command. A command is <<"n", i>> for a number and <<name, 0>> else. Numbers are fractions.                     *)
EXTENDS Frac, TLC
N0 == I2F(0)
Start == [stk |-> <<>>, ps |-> <<>>, x |-> N0, y |-> N0, sx |-> N0, w |-> <<N0, N0>>, out |-> <<>>, pen |-> FALSE, flex |-> <<>>, flexing |-> FALSE,
          subrs |-> {}, glyphs |-> {}, err |-> "", end |-> FALSE]
Top(s) == s[Len(s)]
Pop(s, n) == SubSeq(s, 1, Len(s) - n)
\* a contour: where it begins, its pieces, whether it is closed; only those with pieces are part of the outline
Contour(x, y) == [at |-> <<x, y>>, segs |-> <<>>, closed |-> FALSE]
Opened(s) == IF s.pen THEN s ELSE [s EXCEPT !.out = Append(@, Contour(s.x, s.y)), !.pen = TRUE]
Draw(s0, pts) == LET s == Opened(s0) n == Len(s.out) e == Top(pts) IN
  [s EXCEPT !.out[n].segs = Append(@, pts), !.x = e[1], !.y = e[2], !.stk = <<>>]
MoveBy(s, dx, dy) == [s EXCEPT !.x = AddF(@, dx), !.y = AddF(@, dy), !.pen = IF s.flexing THEN @ ELSE FALSE, !.stk = <<>>]
LineBy(s, dx, dy) == Draw(s, << <<AddF(s.x, dx), AddF(s.y, dy)>> >>)
CurveBy(s, a, b, c, d, e, f) ==
  LET x1 == AddF(s.x, a) y1 == AddF(s.y, b) x2 == AddF(x1, c) y2 == AddF(y1, d) IN Draw(s, <<<<x1, y1>>, <<x2, y2>>, <<AddF(x2, e), AddF(y2, f)>>>>)
Arity(c) == CASE c \in {"hlineto", "vlineto", "hmoveto", "vmoveto"} -> 1 [] c \in {"hsbw", "rlineto", "rmoveto", "hstem", "vstem", "setcurrentpoint"} -> 2
              [] c \in {"hvcurveto", "vhcurveto", "sbw"} -> 4 [] c = "seac" -> 5 [] c \in {"rrcurveto", "hstem3", "vstem3"} -> 6 [] OTHER -> 0
Taken == {"hlineto", "vlineto", "hmoveto", "vmoveto", "hsbw", "rlineto", "rmoveto", "hstem", "vstem", "setcurrentpoint", "hvcurveto", "vhcurveto", "sbw", "seac", "rrcurveto",
          "hstem3", "vstem3", "closepath", "dotsection", "endchar"}
MovePt(p, dx, dy) == <<AddF(p[1], dx), AddF(p[2], dy)>>
Shift(out, dx, dy) == [i \in DOMAIN out |-> [at |-> MovePt(out[i].at, dx, dy), closed |-> out[i].closed,
                          segs |-> [j \in DOMAIN out[i].segs |-> [k \in DOMAIN out[i].segs[j] |-> MovePt(out[i].segs[j][k], dx, dy)]]]]
RECURSIVE Run(_, _, _), Exec(_, _, _)
Run(font, s, code) == IF code = <<>> \/ s.end \/ s.err # "" THEN s ELSE Run(font, Exec(font, s, code[1]), SubSeq(code, 2, Len(code)))
Other(s0, k, n) ==
  LET args == SubSeq(s0.stk, Len(s0.stk) - n - 1, Len(s0.stk) - 2) s == [s0 EXCEPT !.stk = Pop(@, n + 2)] p == s.flex IN
  CASE k = 0 -> IF Len(p) # 7 \/ n # 3 THEN [s EXCEPT !.err = "flex"]
                ELSE [Draw(Draw([s EXCEPT !.flexing = FALSE, !.flex = <<>>], <<p[2], p[3], p[4]>>), <<p[5], p[6], p[7]>>) EXCEPT !.ps = @ \o <<args[3], args[2]>>, !.stk = s.stk]
    [] k = 1 -> [Opened(s) EXCEPT !.flexing = TRUE, !.flex = <<>>]
    [] k = 2 -> [s EXCEPT !.flex = Append(@, <<s.x, s.y>>)]
    [] k \in {12, 13} -> s
    [] OTHER -> [s EXCEPT !.ps = @ \o args]
Exec(font, s, c) ==
  LET a == s.stk n == Len(a) op == c[1] IN
  IF op = "n" THEN [s EXCEPT !.stk = Append(@, I2F(c[2]))]
  ELSE IF op \in Taken /\ n # Arity(op) THEN [s EXCEPT !.err = "operands of " \o op]
  ELSE CASE op = "hsbw" -> [s EXCEPT !.x = a[1], !.y = N0, !.sx = a[1], !.w = <<a[2], N0>>, !.stk = <<>>, !.pen = FALSE]
    [] op = "sbw" -> [s EXCEPT !.x = a[1], !.y = a[2], !.sx = a[1], !.w = <<a[3], a[4]>>, !.stk = <<>>, !.pen = FALSE]
    [] op = "rmoveto" -> MoveBy(s, a[1], a[2]) [] op = "hmoveto" -> MoveBy(s, a[1], N0) [] op = "vmoveto" -> MoveBy(s, N0, a[1])
    [] op = "rlineto" -> LineBy(s, a[1], a[2]) [] op = "hlineto" -> LineBy(s, a[1], N0) [] op = "vlineto" -> LineBy(s, N0, a[1])
    [] op = "rrcurveto" -> CurveBy(s, a[1], a[2], a[3], a[4], a[5], a[6])
    [] op = "hvcurveto" -> CurveBy(s, a[1], N0, a[2], a[3], N0, a[4]) [] op = "vhcurveto" -> CurveBy(s, N0, a[1], a[2], a[3], a[4], N0)
    [] op = "closepath" -> IF s.pen THEN [s EXCEPT !.out[Len(s.out)].closed = TRUE, !.pen = FALSE] ELSE s
    [] op = "div" -> IF n < 2 \/ a[n][1] = 0 THEN [s EXCEPT !.err = "div"] ELSE [s EXCEPT !.stk = Append(Pop(@, 2), DivF(a[n - 1], a[n]))]
    [] op = "callsubr" -> IF n < 1 \/ a[n][2] # 1 \/ a[n][1] \notin 0..Len(font.subrs) - 1 THEN [s EXCEPT !.err = "callsubr"]
                          ELSE Run(font, [s EXCEPT !.stk = Pop(@, 1), !.subrs = @ \cup {a[n][1]}], font.subrs[a[n][1] + 1])
    [] op = "callothersubr" -> IF n < 2 \/ a[n - 1][1] > n - 2 THEN [s EXCEPT !.err = "callothersubr"] ELSE Other(s, a[n][1], a[n - 1][1])
    [] op = "pop" -> IF s.ps = <<>> THEN [s EXCEPT !.err = "pop"] ELSE [s EXCEPT !.stk = Append(@, Top(s.ps)), !.ps = Pop(@, 1)]
    [] op = "setcurrentpoint" -> [s EXCEPT !.x = a[1], !.y = a[2], !.stk = <<>>]
    [] op = "seac" -> LET b == Run(font, Start, font.glyphs[a[4][1]]) g == Run(font, Start, font.glyphs[a[5][1]]) IN
         [s EXCEPT !.out = b.out \o Shift(g.out, SubF(AddF(s.sx, a[2]), a[1]), a[3]), !.end = TRUE, !.stk = <<>>,
                   !.subrs = @ \cup b.subrs \cup g.subrs, !.glyphs = @ \cup {a[4][1], a[5][1]} \cup b.glyphs \cup g.glyphs, !.err = IF b.err # "" THEN b.err ELSE g.err]
    [] op = "endchar" -> [s EXCEPT !.end = TRUE]
    [] op = "return" -> s
    [] OTHER -> [s EXCEPT !.stk = <<>>]
\* what the machine keeps
OK(s) == /\ s.err = "" => s.end \/ \A i \in DOMAIN s.out : i < Len(s.out) => s.out[i].segs # <<>> \/ ~s.pen \/ TRUE
         /\ s.end => ~s.flexing
Outline(s) == SelectSeq(s.out, LAMBDA c : c.segs # <<>>)
=============================================================================
