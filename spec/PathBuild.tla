------------------------------ MODULE PathBuild ------------------------------
(* The path-construction machine of PostScript: path elements build subpaths.                  *)
(* Integer points <<x, y>>; arcs start and end at quarter turns; an arc segment is               *)
(* [k |-> "a", c, r, s, q]: centre, radius, start quarter, signed number of quarters.           *)
EXTENDS Integers, Sequences, FiniteSets
PAdd(p, d) == <<p[1] + d[1], p[2] + d[2]>>
PSub(p, d) == <<p[1] - d[1], p[2] - d[2]>>
Dir(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 1>> [] n % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
OnCircle(c, r, n) == <<c[1] + r * Dir(n)[1], c[2] + r * Dir(n)[2]>>
Line(p) == [k |-> "l", c |-> <<0, 0>>, r |-> 0, s |-> 0, q |-> 0, p |-> <<p>>]
Curve(p) == [k |-> "c", c |-> <<0, 0>>, r |-> 0, s |-> 0, q |-> 0, p |-> p]
Arc(c, r, s, q) == [k |-> "a", c |-> c, r |-> r, s |-> s % 4, q |-> q, p |-> <<OnCircle(c, r, s + q)>>]
End(seg) == seg.p[Len(seg.p)]
Empty == [done |-> <<>>, sp |-> <<>>, cp |-> <<>>, cur |-> <<>>, dot |-> FALSE, open |-> FALSE, bb |-> <<>>, ok |-> TRUE]
\* ---------------------------------------------------------------- canonical subpaths
LastPoint(s) == IF s.cur = <<>> THEN s.sp ELSE End(s.cur[Len(s.cur)])
\* a subpath: start point, segments without those of no extent, closed or not; a dot has only such segments
Finish(s, closed) ==
  IF ~s.open THEN s.done
  ELSE LET segs == IF closed /\ s.cur # <<>> /\ LastPoint(s) # s.sp THEN Append(s.cur, Line(s.sp)) ELSE s.cur
       IN IF segs = <<>> /\ ~s.dot THEN s.done
          ELSE Append(s.done, [s |-> s.sp, g |-> segs, z |-> closed])
Start(s, p) == [s EXCEPT !.done = Finish(s, FALSE), !.sp = p, !.cp = p, !.cur = <<>>, !.dot = FALSE, !.open = TRUE]
\* after a closepath a further segment starts a new subpath at the current point
Reopen(s) == IF s.open THEN s ELSE Start(s, s.cp)
Merge(segs, g) ==
  LET l == segs[Len(segs)]
  IN IF segs # <<>> /\ g.k = "a" /\ l.k = "a" /\ l.c = g.c /\ l.r = g.r /\ (l.s + l.q) % 4 = g.s /\ ((l.q > 0) = (g.q > 0))
     THEN [segs EXCEPT ![Len(segs)] = Arc(l.c, l.r, l.s, l.q + g.q)] ELSE Append(segs, g)
Add(s0, g) ==
  LET s == Reopen(s0)
      zero == CASE g.k = "l" -> g.p[1] = s.cp [] g.k = "a" -> g.r = 0 \/ g.q = 0 [] OTHER -> \A i \in 1..3 : g.p[i] = s.cp
  \* an arc of no angle adds nothing at all
  IN IF zero THEN [s EXCEPT !.dot = s.dot \/ g.k # "a", !.cp = End(g)] ELSE [s EXCEPT !.cur = Merge(s.cur, g), !.cp = End(g), !.dot = TRUE]
\* ------------------------------------------------------------------------- elements
\* number of quarters of an arc from quarter a1 to quarter a2 (PostScript: angles are moved by full turns
\* until they are in order)
Ccw(a1, a2) == IF a2 >= a1 THEN a2 - a1 ELSE (a2 - a1) % 4
DoArc(s, c, r, a, q) ==
  LET p == OnCircle(c, r, a)
      s1 == IF s.cp = <<>> THEN Start(s, p) ELSE Add(s, Line(p))
  IN Add(s1, Arc(c, r, a, q))
\* tangent arc for orthogonal or parallel tangents
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
UnitDir(d) == <<Sgn(d[1]), Sgn(d[2])>>
Cross(d, e) == d[1] * e[2] - d[2] * e[1]
ArctOk(cp, p1, p2) == LET d == PSub(p1, cp) e == PSub(p2, p1)
                      IN d # <<0, 0>> /\ e # <<0, 0>> /\ (Cross(d, e) = 0 \/ ((d[1] = 0 \/ d[2] = 0) /\ d[1] * e[1] + d[2] * e[2] = 0))
Quarter(d) == CHOOSE n \in 0..3 : Dir(n) = d
DoArct(s, p1, p2, r) ==
  LET d == PSub(p1, s.cp) e == PSub(p2, p1)
  IN IF Cross(d, e) = 0 THEN Add(s, Line(p1))
     ELSE LET u == UnitDir(d) v == UnitDir(e) q == Sgn(Cross(u, v))
              c == <<p1[1] - r * u[1] + r * v[1], p1[2] - r * u[2] + r * v[2]>>
          IN Add(Add(s, Line(<<p1[1] - r * u[1], p1[2] - r * u[2]>>)), Arc(c, r, Quarter(u) + 4 - q, q))
\* elliptical-arc command of SVG for circles whose ends are a quarter, two or three quarters apart
DoSvgArc(s, r, large, ccw, p) ==
  LET d == PSub(p, s.cp) n == d[1] * d[1] + d[2] * d[2]
      q0 == IF n = 4 * r * r THEN 2 ELSE IF large THEN 3 ELSE 1
      \* the centre is to the left of the chord for short counterclockwise arcs
      side == IF n = 4 * r * r THEN 0 ELSE IF ccw = large THEN -1 ELSE 1
      c == << (s.cp[1] + p[1] - side * d[2]) \div 2, (s.cp[2] + p[2] + side * d[1]) \div 2 >>
      a == PSub(s.cp, c)
  IN IF n = 0 THEN s
     ELSE IF n \notin {4 * r * r, 2 * r * r} \/ r = 0 \/ (a[1] # 0 /\ a[2] # 0) THEN [s EXCEPT !.ok = FALSE]
     ELSE Add(s, Arc(c, r, Quarter(UnitDir(a)), IF ccw THEN q0 ELSE -q0))
Needs(e) == e.o \notin {"M", "arc", "arcn"}
Rel(s, ps) == [i \in DOMAIN ps |-> PAdd(s.cp, ps[i])]
RECURSIVE AddAll(_, _, _)
AddAll(s, e, i) == LET n == IF e.o = "ml" THEN 1 ELSE 3
                   IN IF i > Len(e.a) THEN s
                      ELSE AddAll(Add(s, IF n = 1 THEN Line(e.a[i]) ELSE Curve(SubSeq(e.a, i, i + 2))), e, i + n)
\* 99991 marks a number that is not an integer
Readable(e) == e.r < 90000 /\ \A i \in DOMAIN e.a : e.a[i][1] < 90000 /\ e.a[i][2] < 90000 /\ e.a[i][1] > -90000 /\ e.a[i][2] > -90000
Build(s, e) ==
  IF ~s.ok \/ ~Readable(e) \/ (e.o = "arct" /\ s.cp # <<>> /\ ~ArctOk(s.cp, e.a[1], e.a[2])) \/ (s.cp = <<>> /\ Needs(e)) THEN [s EXCEPT !.ok = FALSE]
  ELSE CASE e.o = "M" -> Start(s, e.a[1])
         [] e.o = "m" -> Start(s, PAdd(s.cp, e.a[1]))
         [] e.o = "L" -> Add(s, Line(e.a[1]))
         [] e.o = "l" -> Add(s, Line(PAdd(s.cp, e.a[1])))
         [] e.o = "C" -> Add(s, Curve(e.a))
         [] e.o = "c" -> Add(s, Curve(Rel(s, e.a)))
         [] e.o \in {"ml", "mc"} -> AddAll(s, e, 1)
         [] e.o = "Z" -> [s EXCEPT !.done = Finish(s, TRUE), !.cp = s.sp, !.cur = <<>>, !.dot = FALSE, !.open = FALSE]
         [] e.o = "arc" -> DoArc(s, e.a[1], e.r, e.n[1] + 400, Ccw(e.n[1], e.n[2]))
         [] e.o = "arcn" -> DoArc(s, e.a[1], e.r, e.n[1] + 400, -Ccw(e.n[2], e.n[1]))
         [] e.o = "arct" -> DoArct(s, e.a[1], e.a[2], e.r)
         \* elements of written files only
         [] e.o = "A" -> DoSvgArc(s, e.r, e.n[1] = 1, e.n[2] = 1, e.a[1])
         [] e.o = "Q" -> IF OnCircle(e.a[1], e.r, e.n[1]) = s.cp THEN Add(s, Arc(e.a[1], e.r, e.n[1], e.n[2])) ELSE [s EXCEPT !.ok = FALSE]
         [] OTHER -> [s EXCEPT !.ok = FALSE]
RECURSIVE BuildAll(_, _)
BuildAll(s, es) == IF es = <<>> THEN s ELSE BuildAll(Build(s, Head(es)), Tail(es))
Subpaths(es) == LET s == BuildAll(Empty, es) IN [ok |-> s.ok, subs |-> Finish(s, FALSE)]
NoDots(r) == [r EXCEPT !.subs = SelectSeq(r.subs, LAMBDA t : t.g # <<>>)]
\* ------------------------------------------------------------------------- extents
SegPoints(start, g) == IF g.k = "a" THEN {OnCircle(g.c, g.r, g.s + 400 + (IF g.q < 0 THEN -n ELSE n)) : n \in 0..(IF g.q < 0 THEN -g.q ELSE g.q)}
                       ELSE {g.p[i] : i \in DOMAIN g.p}
SubPoints(t) == {t.s} \cup UNION {SegPoints(t.s, t.g[i]) : i \in DOMAIN t.g}
AllPoints(subs) == UNION {SubPoints(subs[i]) : i \in DOMAIN subs}
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
MaxOf(S) == CHOOSE m \in S : \A x \in S : m >= x
ExtentOf(P) == << MinOf({p[1] : p \in P}), MinOf({p[2] : p \in P}), MaxOf({p[1] : p \in P}), MaxOf({p[2] : p \in P}) >>
=============================================================================
