------------------------------- MODULE TextBox -------------------------------
(* Boxes TeX makes of rules: layout of a text, in hundredths of a point. A box: [w, h, d, rules, marks], rules as           *)
(* <<x0, y0, x1, y1>> and marks as <<name, x, y>> relative to its reference point. Items of a line:                         *)
(*  [k |-> "rule", w, h, d], [k |-> "kern", w], [k |-> "macro", name], [k |-> "raise", w, h, d, dy],                        *)
(*  [k |-> "tight", w, rw, h] (a rule wider than its box), [k |-> "mark", name], others leave no trace (messages, errors)   *)
EXTENDS Integers, Sequences
Max(a, b) == IF a > b THEN a ELSE b
Empty == [w |-> 0, h |-> 0, d |-> 0, rules |-> <<>>, marks |-> <<>>]
Visible(r) == r[1] # r[3] /\ r[2] # r[4]
Put(b, rule, w, h, d) == [b EXCEPT !.w = @ + w, !.h = Max(@, h), !.d = Max(@, d), !.rules = IF Visible(rule) THEN Append(@, rule) ELSE @]
Add(b, i, macros) ==
  CASE i.k = "rule" -> Put(b, <<b.w, -i.d, b.w + i.w, i.h>>, i.w, i.h, i.d)
    [] i.k = "macro" -> LET m == macros[i.name] IN Put(b, <<b.w, -m.d, b.w + m.w, m.h>>, m.w, m.h, m.d)
    [] i.k = "kern" -> [b EXCEPT !.w = @ + i.w]
    [] i.k = "raise" -> Put(b, <<b.w, i.dy - i.d, b.w + i.w, i.dy + i.h>>, i.w, i.h + i.dy, i.d - i.dy)
    [] i.k = "tight" -> Put(b, <<b.w, 0, b.w + i.rw, i.h>>, i.w, i.h, 0)
    [] i.k = "mark" -> [b EXCEPT !.marks = Append(@, <<i.name, b.w, 0>>)]
    [] OTHER -> b
RECURSIVE Line(_, _, _)
Line(items, macros, b) == IF items = <<>> THEN b ELSE Line(Tail(items), macros, Add(b, items[1], macros))
Moved(b, dx, dy) == [b EXCEPT !.rules = [i \in DOMAIN @ |-> <<@[i][1] + dx, @[i][2] + dy, @[i][3] + dx, @[i][4] + dy>>],
                              !.marks = [i \in DOMAIN @ |-> <<@[i][1], @[i][2] + dx, @[i][3] + dy>>]]
Lowered(b, by) == [Moved(b, 0, -by) EXCEPT !.h = Max(0, b.h - by), !.d = Max(0, b.d + by)]
\* lines in a column of some width: the baseline of line k is below the one of line 1 by
RECURSIVE Depths(_, _, _)
Depths(ls, k, y) == IF k > Len(ls) THEN <<>> ELSE LET y1 == IF k = 1 THEN 0 ELSE y + ls[k - 1].d + ls[k].h IN <<y1>> \o Depths(ls, k + 1, y1)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Column(ls, width, flush4, baseline) ==
  LET y == Depths(ls, 1, 0)
      n == Len(ls)
      inner == [k \in 1..n |-> Moved(ls[k], ((width - ls[k].w) * flush4) \div 4, -y[k])]
      total == y[n]
      \* the baseline of the first line is at 0
      first == [w |-> width, h |-> ls[1].h, d |-> total + ls[n].d, rules |-> Cat([k \in 1..n |-> inner[k].rules]), marks |-> Cat([k \in 1..n |-> inner[k].marks])]
      up == IF baseline = "top" THEN 0 ELSE IF baseline = "bottom" THEN total ELSE total \div 2
  IN [Moved(first, 0, up) EXCEPT !.h = first.h + up, !.d = first.d - up]
\* the whole text. Attributes: width (0: no column), flush4, baseline, valign4 (-1: none), vshift: <<>> or <<ratio in quarters, height>>, phantom
Text(t, macros) ==
  LET ls == [k \in DOMAIN t.lines |-> Line(t.lines[k], macros, Empty)]
      b0 == IF t.width = 0 THEN ls[1] ELSE Column(ls, t.width, t.flush4, t.baseline)
      b1 == IF t.phantom THEN [b0 EXCEPT !.rules = <<>>] ELSE b0
      b2 == IF t.valign4 < 0 THEN b1 ELSE Lowered(b1, ((4 - t.valign4) * b1.h - t.valign4 * b1.d) \div 4)
  IN IF t.vshift = <<>> THEN b2 ELSE Lowered(b2, (t.vshift[1] * t.vshift[2]) \div 4)
\* extent: left and right of the reference point
Left(b, halign4) == (halign4 * b.w) \div 4
Right(b, halign4) == b.w - Left(b, halign4)
\* placement: points are <<x, y>>, maps are <<a, b, c, d, e, f>>: x' = a x + c y + e, y' = b x + d y + f
Apply(m, p) == <<m[1] * p[1] + m[3] * p[2] + m[5], m[2] * p[1] + m[4] * p[2] + m[6]>>
RECURSIVE ApplyAll(_, _), AroundAll(_, _, _)
ApplyAll(ms, p) == IF ms = <<>> THEN p ELSE ApplyAll(Tail(ms), Apply(ms[1], p))
\* transformations of a text act around its reference point, wherever that has been moved to
AroundAll(ms, c, p) == IF ms = <<>> THEN p ELSE AroundAll(Tail(ms), <<c[1] + ms[1][5], c[2] + ms[1][6]>>, LET q == Apply(ms[1], <<p[1] - c[1], p[2] - c[2]>>) IN <<c[1] + q[1], c[2] + q[2]>>)
=============================================================================
