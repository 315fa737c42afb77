------------------------------- MODULE SVGRead -------------------------------
(* What an SVG document paints: a tree of groups and shapes with inherited properties. *)
(* Coordinates are fractions; the page has its origin in the lower left corner and is measured in PostScript points. *)
EXTENDS Frac, SVGColors
LCM(a, b) == (a \div GCD(a, b)) * b
Add(p, q) == LET l == LCM(p[2], q[2]) IN Fr(p[1] * (l \div p[2]) + q[1] * (l \div q[2]), l)
Sub(p, q) == Add(p, NegF(q))
\* reduced crosswise to keep the numbers small
Mul(p, q) == LET g == GCD(AbsI(p[1]), q[2])  h == GCD(AbsI(q[1]), p[2]) IN
             IF p[1] = 0 \/ q[1] = 0 THEN <<0, 1>> ELSE <<(p[1] \div g) * (q[1] \div h), (p[2] \div h) * (q[2] \div g)>>
Inv(p) == Fr(p[2], p[1])
One == <<1, 1>>
Zero == <<0, 1>>
\* matrices <<a, b, c, d, e, f>>: x' = a x + c y + e, y' = b x + d y + f
Id == <<One, Zero, Zero, One, Zero, Zero>>
Dot(a, x, c, y) == Add(Mul(a, x), Mul(c, y))
Comp(m, n) == <<Dot(m[1], n[1], m[3], n[2]), Dot(m[2], n[1], m[4], n[2]), Dot(m[1], n[3], m[3], n[4]), Dot(m[2], n[3], m[4], n[4]),
                Add(Dot(m[1], n[5], m[3], n[6]), m[5]), Add(Dot(m[2], n[5], m[4], n[6]), m[6])>>
Apply(m, p) == <<Add(Dot(m[1], p[1], m[3], p[2]), m[5]), Add(Dot(m[2], p[1], m[4], p[2]), m[6])>>
Det(m) == Sub(Mul(m[1], m[4]), Mul(m[2], m[3]))
Scale(x, y) == <<x, Zero, Zero, y, Zero, Zero>>
Shift(x, y) == <<One, Zero, Zero, One, x, y>>
\* a length <<numerator, denominator, unit>> in user units; res: user units per inch
PerInch(u, res) == CASE u = "pt" -> <<res, 72>> [] u = "pc" -> <<res, 6>> [] u = "in" -> <<res, 1>> [] u = "cm" -> <<50 * res, 127>> [] u = "mm" -> <<5 * res, 127>> [] OTHER -> One
Len_(v, res) == Mul(Fr(v[1], v[2]), LET p == PerInch(v[3], res) IN Fr(p[1], p[2]))
\* one transformation [c, a]: angles are given by cosine and sine in fifths, skews by the tangent
Trafo(t, res) ==
  LET v(i) == Fr(t.a[i][1], t.a[i][2])
      l(i) == Len_(t.a[i], res)
      rot == <<v(1), v(2), NegF(v(2)), v(1), Zero, Zero>>
  IN CASE t.c = "translate" -> Shift(l(1), IF Len(t.a) > 1 THEN l(2) ELSE Zero)
       [] t.c = "scale" -> Scale(v(1), IF Len(t.a) > 1 THEN v(2) ELSE v(1))
       [] t.c = "rotate" -> IF Len(t.a) > 2 THEN Comp(Shift(l(3), l(4)), Comp(rot, Shift(NegF(l(3)), NegF(l(4))))) ELSE rot
       [] t.c = "skewX" -> <<One, Zero, v(1), One, Zero, Zero>>
       [] t.c = "skewY" -> <<One, v(1), Zero, One, Zero, Zero>>
       [] OTHER -> <<v(1), v(2), v(3), v(4), l(5), l(6)>>
RECURSIVE Trafos(_, _, _)
Trafos(m, ts, res) == IF ts = <<>> THEN m ELSE Trafos(Comp(m, Trafo(ts[1], res)), Tail(ts), res)
\* paint: <<>> (none) or <<red, green, blue>> in thousandths of full intensity
Full(v) == (1000 * v) \div 255
Paint(c) == CASE c.f = "none" -> <<>>
              [] c.f = "name" -> LET v == Named[c.n] IN [i \in 1..3 |-> Full(v[i])]
              [] c.f = "hex3" -> [i \in 1..3 |-> Full(17 * c.v[i])]
              [] c.f = "percent" -> [i \in 1..3 |-> 10 * c.v[i]]
              [] OTHER -> [i \in 1..3 |-> Full(c.v[i])]
\* the inherited state
Initial == [m |-> Id, fill |-> <<0, 0, 0>>, stroke |-> <<>>, width |-> One, cap |-> "butt", join |-> "miter", miter |-> <<4, 1>>, dash |-> <<>>, off |-> Zero, rule |-> "nonzero"]
\* attributes: records with the given ones; the value "inherit" is the same as an absent one
Given(a, f) == f \in DOMAIN a
Inherit(s, a, res) ==
  [m |-> IF Given(a, "transform") THEN Trafos(s.m, a.transform, res) ELSE s.m,
   fill |-> IF Given(a, "fill") THEN Paint(a.fill) ELSE s.fill,
   stroke |-> IF Given(a, "stroke") THEN Paint(a.stroke) ELSE s.stroke,
   width |-> IF Given(a, "width") THEN Len_(a.width, res) ELSE s.width,
   cap |-> IF Given(a, "cap") THEN a.cap ELSE s.cap,
   join |-> IF Given(a, "join") THEN a.join ELSE s.join,
   miter |-> IF Given(a, "miter") THEN a.miter ELSE s.miter,
   dash |-> IF Given(a, "dash") THEN [i \in DOMAIN a.dash |-> Len_(a.dash[i], res)] ELSE s.dash,
   off |-> IF Given(a, "off") THEN Len_(a.off, res) ELSE s.off,
   rule |-> IF Given(a, "rule") THEN a.rule ELSE s.rule]
\* the viewport: svg: [w, h (lengths or <<>>), box (<<>> or x, y, w, h)], file: [x, y, w, h] with w, h <<>> for the natural size
Viewport(v, res) == LET w == IF v.w = <<>> THEN Fr(v.box[3][1], v.box[3][2]) ELSE Len_(v.w, res)
                        h == IF v.h = <<>> THEN Fr(v.box[4][1], v.box[4][2]) ELSE Len_(v.h, res) IN <<w, h>>
\* size on the page and the matrix from user units to the page
Size(v, f, res) ==
  LET vp == Viewport(v, res)  k == Fr(72, res)
      w == Mul(vp[1], k)  h == Mul(vp[2], k)
      ratio == IF f.ratio = <<>> THEN Mul(w, Inv(h)) ELSE Fr(f.ratio[1], f.ratio[2])
  IN CASE f.w # <<>> /\ f.h # <<>> -> <<Fr(f.w[1], f.w[2]), Fr(f.h[1], f.h[2])>>
       [] f.w # <<>> -> <<Fr(f.w[1], f.w[2]), Mul(Fr(f.w[1], f.w[2]), Inv(ratio))>>
       [] f.h # <<>> -> <<Mul(Fr(f.h[1], f.h[2]), ratio), Fr(f.h[1], f.h[2])>>
       [] OTHER -> <<w, h>>
Base(v, f, res) ==
  LET vp == Viewport(v, res)  sz == Size(v, f, res)
      page == Comp(Shift(Fr(f.x, 1), Add(Fr(f.y, 1), sz[2])), Scale(Mul(sz[1], Inv(vp[1])), NegF(Mul(sz[2], Inv(vp[2])))))
      b(i) == Fr(v.box[i][1], v.box[i][2])
  IN IF v.box = <<>> THEN page ELSE Comp(page, Comp(Scale(Mul(vp[1], Inv(b(3))), Mul(vp[2], Inv(b(4)))), Shift(NegF(b(1)), NegF(b(2)))))
\* shapes: [c, a (lengths)]: polygons of points, or rounded boxes (ellipses are those without straight sides); <<>> draws nothing
Bound(r, side) == IF LessF(side, Mul(<<2, 1>>, r)) THEN Mul(<<1, 2>>, side) ELSE r
Rounded(x, y, w, h, rx, ry) == [k |-> "round", x |-> Add(x, Mul(<<1, 2>>, w)), y |-> Add(y, Mul(<<1, 2>>, h)), w |-> w, h |-> h, rx |-> rx, ry |-> ry]
Polygon(ps, closed) == [k |-> "polygon", ps |-> ps, closed |-> closed]
Shape(c, a, res) ==
  LET l(i) == IF a[i] = <<>> THEN Zero ELSE Len_(a[i], res)
      null(i) == l(i) = Zero
  IN CASE c = "line" -> <<Polygon(<< <<l(1), l(2)>>, <<l(3), l(4)>> >>, FALSE)>>
       [] c = "rect" -> IF null(3) \/ null(4) THEN <<>>
                        ELSE LET rx == IF a[5] = <<>> THEN l(6) ELSE l(5)
                                 ry == IF a[6] = <<>> THEN l(5) ELSE l(6) IN
                             IF rx = Zero \/ ry = Zero
                             THEN <<Polygon(<< <<l(1), l(2)>>, <<Add(l(1), l(3)), l(2)>>, <<Add(l(1), l(3)), Add(l(2), l(4))>>, <<l(1), Add(l(2), l(4))>> >>, TRUE)>>
                             ELSE <<Rounded(l(1), l(2), l(3), l(4), Bound(rx, l(3)), Bound(ry, l(4)))>>
       [] c = "circle" -> IF null(3) THEN <<>> ELSE <<Rounded(Sub(l(1), l(3)), Sub(l(2), l(3)), Add(l(3), l(3)), Add(l(3), l(3)), l(3), l(3))>>
       [] c = "ellipse" -> IF null(3) \/ null(4) THEN <<>> ELSE <<Rounded(Sub(l(1), l(3)), Sub(l(2), l(4)), Add(l(3), l(3)), Add(l(4), l(4)), l(3), l(4))>>
       [] OTHER -> IF Len(a) < 2 THEN <<>> ELSE <<Polygon([i \in 1..Len(a) \div 2 |-> <<l(2 * i - 1), l(2 * i)>>], c # "polyline")>>
\* a polygon without area
Flat(sh) == sh.k = "polygon" /\ Len(sh.ps) < 3
\* the paints of a shape in order
Paints(s, shape) == IF shape = <<>> THEN <<>>
  ELSE (IF s.fill # <<>> /\ ~Flat(shape[1]) THEN <<[op |-> "fill", s |-> s, shape |-> shape[1]]>> ELSE <<>>)
    \o (IF s.stroke # <<>> /\ ~(shape[1].k = "polygon" /\ Len(shape[1].ps) < 2) THEN <<[op |-> "stroke", s |-> s, shape |-> shape[1]]>> ELSE <<>>)
=============================================================================
