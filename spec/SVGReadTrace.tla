---------------------------- MODULE SVGReadTrace ----------------------------
(* t.ev: the elements of a document in document order; the first event carries everything which was painted.            *)
(* points and boxes in hundredths of a point, pens (line width times matrix) in thousandths, colours in thousandths     *)
EXTENDS TraceLib, SVGRead
VARIABLES tid, l, st, err
\* 100 q rounded down
Hund(q) == (100 * q[1]) \div q[2]
Thou(q) == (1000 * q[1]) \div q[2]
Close(a, b, tol) == a - b \in -tol..tol
NearP(q, p) == Close(Hund(q[1]), p[1], 3) /\ Close(Hund(q[2]), p[2], 3)
\* the same polygon (for closed ones the repeated first point may be present)
SamePoly(m, sh, subs) ==
  LET n == Len(sh.ps)
      ps == IF Len(subs) = 1 THEN subs[1].ps ELSE <<>>
  IN /\ Len(subs) = 1
     /\ sh.closed => subs[1].closed
     /\ ~sh.closed => ~subs[1].closed
     /\ Len(ps) = n \/ (sh.closed /\ Len(ps) = n + 1 /\ NearP(Apply(m, sh.ps[1]), ps[n + 1]))
     /\ \A i \in 1..n : NearP(Apply(m, sh.ps[i]), ps[i])
\* extents of a rounded box in the directions (1, 0), (0, 1), (1, 1), (1, -1); half points of 1/50
Fifty(q) == (50 * q[1]) \div q[2]
Dirs == << <<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, -1>> >>
SameRound(m, sh, r) ==
  LET c == Apply(m, <<sh.x, sh.y>>)
      half(a) == Mul(<<1, 2>>, a)
      Ok_(k) == LET u == Dirs[k]
                    vx == Add(Mul(<<u[1], 1>>, m[1]), Mul(<<u[2], 1>>, m[2]))
                    vy == Add(Mul(<<u[1], 1>>, m[3]), Mul(<<u[2], 1>>, m[4]))
                    lin == Fifty(Add(Mul(AbsF(vx), Sub(half(sh.w), sh.rx)), Mul(AbsF(vy), Sub(half(sh.h), sh.ry))))
                    a == Fifty(Mul(vx, sh.rx))  b == Fifty(Mul(vy, sh.ry))
                    mid == Hund(Add(Mul(<<u[1], 1>>, c[1]), Mul(<<u[2], 1>>, c[2])))
                    lo == r.ext[k][1]  hi == r.ext[k][2]
                    h == (hi - lo) \div 4 - lin
                IN Close((lo + hi) \div 2, mid, 8) /\ h >= -4 /\ Close(h * h, a * a + b * b, 10 * (IF h > 0 THEN h ELSE 0) + 40 + (h * h) \div 1000)
      det == AbsF(Det(m))
      \* area of the box without its corners
      box == Mul(sh.w, sh.h)  corner == Mul(sh.rx, sh.ry)
      inner == box[1] \div box[2] - (429 * (corner[1] \div corner[2])) \div 500
      dt == Thou(det)
      want == (dt \div 1000) * inner + ((dt % 1000) * inner) \div 1000
  IN r.curved /\ Len(r.subs) = 1 /\ r.subs[1].closed /\ (\A k \in 1..4 : Ok_(k)) /\ Close(want, r.area, want \div 40 + dt \div 500 + 2)
SameShape(m, sh, r) == IF sh.k = "polygon" THEN ~r.curved /\ SamePoly(m, sh, r.subs) ELSE SameRound(m, sh, r)
SameColor(c, r) == \A i \in 1..3 : Close(c[i], r.col[i], 2)
\* pens: the same ellipse
Gram(p) == <<p[1] * p[1] + p[3] * p[3], p[1] * p[2] + p[3] * p[4], p[2] * p[2] + p[4] * p[4]>>
SamePen(s, r) == LET want == [i \in 1..4 |-> Thou(Mul(s.width, s.m[i]))]
                     w == Gram(want)  g == Gram(r.pen)
                     big == MaxF(<<AbsI(want[1]) + AbsI(want[3]), 1>>, <<AbsI(want[2]) + AbsI(want[4]), 1>>)[1]
                 IN \A i \in 1..3 : Close(w[i], g[i], 8 * big + 20)
Twice(d) == IF Len(d) % 2 = 1 THEN d \o d ELSE d
SameDash(s, r) == LET ratio(q) == Thou(Mul(q, Inv(s.width))) IN
   IF \A i \in DOMAIN s.dash : s.dash[i] = Zero THEN r.dash = <<>>
   ELSE LET d == Twice(s.dash)  e == Twice(r.dash) IN Len(d) = Len(e) /\ (\A i \in DOMAIN d : Close(ratio(d[i]), e[i], 3 + e[i] \div 500)) /\ Close(ratio(s.off), r.off, 3 + AbsI(r.off) \div 500)
Caps == [butt |-> 0, round |-> 1, square |-> 2]
Joins == [miter |-> 0, round |-> 1, bevel |-> 2]
\* clipping does not touch the viewport
ClipOk(st_, r) == \A i \in DOMAIN r.clips : LET b == r.clips[i] IN b[1] <= st_.view[1] + 3 /\ b[2] <= st_.view[2] + 3 /\ b[3] >= st_.view[3] - 3 /\ b[4] >= st_.view[4] - 3
\* with a view box everything outside is invisible
ClipTight(st_, r) == st_.tight => \E i \in DOMAIN r.clips : \A k \in 1..4 : Close(r.clips[i][k], st_.view[k], 3)
Check(st_, w, r) ==
  Clauses(st_, << <<w.op = (IF r.op = "eofill" THEN "fill" ELSE r.op), "order">>,
                  <<SameShape(w.s.m, w.shape, r), "geometry">>,
                  <<SameColor(IF w.op = "fill" THEN w.s.fill ELSE w.s.stroke, r), "colour">>,
                  <<w.op = "fill" => ((r.op = "eofill") <=> (w.s.rule = "evenodd")), "rule">>,
                  <<w.op = "stroke" => SamePen(w.s, r), "pen">>,
                  <<w.op = "stroke" => Caps[w.s.cap] = r.cap, "cap">>,
                  <<w.op = "stroke" => Joins[w.s.join] = r.join, "join">>,
                  <<w.op = "stroke" => Close(100 * w.s.miter[1], r.miter * w.s.miter[2], 1), "miter">>,
                  <<w.op = "stroke" => SameDash(w.s, r), "dash">>,
                  <<ClipOk(st_, r), "clipped">>, <<ClipTight(st_, r), "not-clipped">> >>)
RECURSIVE All(_, _)
\* the paints of one shape
All(st_, ws) == IF ws = <<>> THEN Ok(st_)
                ELSE IF st_.rec = <<>> THEN Bad(st_, "missing-" \o ws[1].op)
                ELSE LET r == Check(st_, ws[1], st_.rec[1]) IN IF r.err # "" THEN r ELSE All([st_ EXCEPT !.rec = Tail(@)], Tail(ws))
TStep(s, e) ==
  CASE e.k = "svg" -> LET sz == Size(e.v, e.file, e.res)
                          b == <<100 * e.file.x, 100 * e.file.y, 100 * e.file.x + Hund(sz[1]), 100 * e.file.y + Hund(sz[2])>>
                          root == Inherit([Initial EXCEPT !.m = Base(e.v, e.file, e.res)], e.a, e.res)
                      IN Clauses([stack |-> <<root>>, rec |-> e.rec, res |-> e.res, view |-> b, tight |-> e.v.box # <<>>],
                                 << <<e.failed = "", "failed">>, <<\A i \in 1..4 : Close(b[i], e.bbox[i], 3), "bbox">> >>)
    \* a file included without reading it: its coordinates are those of the viewport
    [] e.k = "embed" -> LET sz == Size(e.v, e.file, e.res)
                            b == <<100 * e.file.x, 100 * e.file.y, 100 * e.file.x + Hund(sz[1]), 100 * e.file.y + Hund(sz[2])>>
                            m == Base([e.v EXCEPT !.box = <<>>], e.file, e.res)
                        IN Clauses([rec |-> <<>>], << <<e.failed = "", "failed">>, <<\A i \in 1..4 : Close(b[i], e.bbox[i], 3), "bbox">>, <<e.same, "content">>,
                                                      <<\A i \in 1..4 : Close(Thou(m[i]), e.m[i], 3), "scaled">>, <<\A i \in 5..6 : Close(Hund(m[i]), e.m[i], 3), "placed">> >>)
    [] e.k = "g" -> Ok([s EXCEPT !.stack = Append(@, Inherit(@[Len(@)], e.a, s.res))])
    [] e.k = "shape" -> All(s, Paints(Inherit(s.stack[Len(s.stack)], e.a, s.res), Shape(e.c, e.v, s.res)))
    [] e.k = "close" -> Ok([s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)])
    [] OTHER -> Clauses(s, << <<s.rec = <<>>, "too-much">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = [rec |-> <<>>] /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
