------------------------------ MODULE Painter ------------------------------
(* How axes are painted.  Lengths in hundredths of a point, directions in tenths.                    *)
(* A line a: [x0, y0, x1, y1, dx, dy]: from v = 0 to v = 1; ticks point to (dx, dy)/10.               *)
(* An axis x: [kind |-> "lin"/"bar", lo, hi, rev, ticks, names, title |-> <<w, h, c>> or <<>>]         *)
(*   ticks: [v, tl, ll, w, h, c]: levels of tick and label (-1: none), size and colour of the label    *)
(* A painter p: [on, inner, outer |-> lengths by level (<<>>: none, NoLen: none for that level),        *)
(*   tick, grid |-> [on, c |-> colours by level ("none": not drawn)], base |-> colour or "none",         *)
(*   label, dist, dir, heq, veq, title, tdist, tdir, tpos]                                               *)
EXTENDS Integers, Sequences, FiniteSets
NoLen == -1000000
Cyc(s, k) == s[(k % Len(s)) + 1]
Abs(i) == IF i < 0 THEN -i ELSE i
\* exact division (also of negative numbers)
Div(i, n) == IF i < 0 THEN -((-i) \div n) ELSE i \div n
At(a, n, d) == <<a.x0 + Div((a.x1 - a.x0) * n, d), a.y0 + Div((a.y1 - a.y0) * n, d)>>
Along(a, p, len) == <<p[1] + Div(a.dx * len, 10), p[2] + Div(a.dy * len, 10)>>
\* the direction of a text (tenths): never upside down
Dir(a, dir) == LET t == IF dir = "parallel" THEN <<-a.dy, a.dx>> ELSE IF dir = "orthogonal" THEN <<-a.dx, -a.dy>> ELSE <<10, 0>>
               IN IF t[1] < 0 THEN <<-t[1], -t[2]>> ELSE t
\* half of the extent of a text of size w, h along the ticks
Half(a, dir, w, h) == LET t == Dir(a, dir) IN Div(Abs(t[1] * a.dx + t[2] * a.dy) * w + Abs(t[1] * a.dy - t[2] * a.dx) * h, 200)
\* a text with its centre at c: [x, y |-> centre, lx, ly |-> its lower left corner, c]
Text(c, t, w, h, col) == [x |-> c[1], y |-> c[2], lx |-> c[1] - Div(t[1] * w - t[2] * h, 20), ly |-> c[2] - Div(t[2] * w + t[1] * h, 20), c |-> col]
MaxS(S) == CHOOSE m \in S : \A n \in S : n <= m
\* the end of every axis: its title beyond all the rest
Title(a, x, p, ext, strokes, texts) ==
  IF x.title = <<>> \/ ~p.title THEN [strokes |-> strokes, texts |-> texts, ext |-> ext]
  ELSE LET half == Half(a, p.tdir, x.title[1], x.title[2])
           e == ext + p.tdist
           c == Along(a, At(a, p.tpos, 100), -(e + half))
       IN [strokes |-> strokes, texts |-> Append(texts, Text(c, Dir(a, p.tdir), x.title[1], x.title[2], x.title[3])), ext |-> e + 2 * half]
Stroke(b, e, col) == [x0 |-> b[1], y0 |-> b[2], x1 |-> e[1], y1 |-> e[2], c |-> col]
Base(a, p) == IF p.base = "none" THEN <<>> ELSE << Stroke(At(a, 0, 1), At(a, 1, 1), p.base) >>
Nothing == [strokes |-> <<>>, texts |-> <<>>, ext |-> 0]
----
Pos(x, a, t) == IF x.rev THEN At(a, x.hi - t.v, x.hi - x.lo) ELSE At(a, t.v - x.lo, x.hi - x.lo)
RECURSIVE Cat(_, _)
Cat(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o Cat(s, i + 1)
Len1(ls, k) == IF ls = <<>> THEN NoLen ELSE Cyc(ls, k)
\* the ends of the stroke of a tick, relative to its point, or nothing
TickEnds(p, k) == LET i == Len1(p.inner, k)
                      o == Len1(p.outer, k)
                  IN IF ~p.tick.on \/ Cyc(p.tick.c, k) = "none" \/ (i = NoLen /\ o = NoLen) THEN <<>>
                     ELSE <<IF i = NoLen THEN 0 ELSE i, IF o = NoLen THEN 0 ELSE o>>
Equal(a, p) == (a.dx = 0 /\ p.veq) \/ (a.dy = 0 /\ p.heq)
Labelled(x) == SelectSeq(x.ticks, LAMBDA t : t.ll >= 0)
\* gb: between which coordinates grid lines run
Regular(a, x, p, gb) ==
  LET ticks == SelectSeq(x.ticks, LAMBDA t : t.tl >= 0 /\ TickEnds(p, t.tl) # <<>>)
      ends(t) == TickEnds(p, t.tl)
      labels == IF p.label THEN Labelled(x) ELSE <<>>
      half(t) == Half(a, p.dir, t.w, t.h)
      most == MaxS({0} \cup {half(labels[i]) : i \in DOMAIN labels})
      where(t) == Along(a, Pos(x, a, t), -(p.dist + (IF Equal(a, p) THEN most ELSE half(t))))
      tickstrokes == [i \in DOMAIN ticks |-> Stroke(Along(a, Pos(x, a, ticks[i]), ends(ticks[i])[1]), Along(a, Pos(x, a, ticks[i]), -ends(ticks[i])[2]), Cyc(p.tick.c, ticks[i].tl))]
      gridticks == IF p.grid.on THEN SelectSeq(x.ticks, LAMBDA t : t.tl >= 0 /\ Cyc(p.grid.c, t.tl) # "none") ELSE <<>>
      gridstrokes == [i \in DOMAIN gridticks |-> LET q == Pos(x, a, gridticks[i]) IN
                        IF a.dx = 0 THEN Stroke(<<q[1], gb[1]>>, <<q[1], gb[2]>>, Cyc(p.grid.c, gridticks[i].tl)) ELSE Stroke(<<gb[1], q[2]>>, <<gb[2], q[2]>>, Cyc(p.grid.c, gridticks[i].tl))]
      ext == MaxS({0} \cup {ends(ticks[i])[2] : i \in DOMAIN ticks} \cup {-ends(ticks[i])[1] : i \in DOMAIN ticks} \cup {2 * half(labels[i]) + p.dist : i \in DOMAIN labels})
  IN Title(a, x, p, ext, tickstrokes \o gridstrokes \o Base(a, p),
           [i \in DOMAIN labels |-> Text(where(labels[i]), Dir(a, p.dir), labels[i].w, labels[i].h, labels[i].c)])
\* bars of equal size with gaps as large as the bars: n bars divide the axis into n parts
BarPos(x, a, i, p) == LET n == Len(x.names)
                          k == IF x.rev THEN n + 1 - i ELSE i
                      IN At(a, 4 * (k - 1) * 100 + 100 + 2 * p.npos, 400 * n)
BarTicks(p) == p.tick.on /\ (p.inner # <<>> \/ p.outer # <<>>)
Bars(a, x, p) ==
  LET half(t) == Half(a, p.dir, t.w, t.h)
      names == IF p.label THEN x.names ELSE <<>>
      most == MaxS({0} \cup {half(names[i]) : i \in DOMAIN names})
      i0 == IF p.inner = <<>> THEN 0 ELSE p.inner[1]
      o0 == IF p.outer = <<>> THEN 0 ELSE p.outer[1]
      ticks == IF BarTicks(p) THEN [i \in 1..(Len(x.names) + 1) |-> LET q == At(a, i - 1, Len(x.names)) IN Stroke(Along(a, q, i0), Along(a, q, -o0), p.tick.c[1])] ELSE <<>>
      ext == MaxS({0} \cup (IF BarTicks(p) THEN {o0, -i0} ELSE {}) \cup {2 * half(names[i]) + p.dist : i \in DOMAIN names})
  IN Title(a, x, p, ext, ticks \o Base(a, p),
           [i \in DOMAIN names |-> Text(Along(a, BarPos(x, a, i, p), -(p.dist + (IF Equal(a, p) THEN most ELSE half(names[i])))), Dir(a, p.dir), names[i].w, names[i].h, names[i].c)])
Paint(a, x, p, gb) == IF ~p.on THEN Nothing ELSE IF x.kind = "bar" THEN Bars(a, x, p) ELSE Regular(a, x, p, gb)
----
\* the lines of the axes of a graph of size w, h: g.axes: [name |-> "x"/"y", n |-> number, x |-> axis, p |-> painter]
Upright(g, e) == (e.name = "x") = ~g.flipped          \* its line is horizontal
\* 1: below or to the left of the graph, -1: above or to the right (flipped graphs: x to the right)
Side(g, e) == LET s == IF e.n % 2 = 1 THEN 1 ELSE -1 IN IF e.name = "x" /\ g.flipped THEN -s ELSE s
LineAt(g, e, off) ==
  LET s == Side(g, e) IN
  IF Upright(g, e) THEN LET y == IF s = 1 THEN g.y - off ELSE g.y + g.h + off IN [x0 |-> g.x, y0 |-> y, x1 |-> g.x + g.w, y1 |-> y, dx |-> 0, dy |-> 10 * s]
  ELSE LET xx == IF s = 1 THEN g.x - off ELSE g.x + g.w + off IN [x0 |-> xx, y0 |-> g.y, x1 |-> xx, y1 |-> g.y + g.h, dx |-> 10 * s, dy |-> 0]
Grid(g, e) == IF Upright(g, e) THEN <<g.y, g.y + g.h>> ELSE <<g.x, g.x + g.w>>
Find(g, name, n) == CHOOSE i \in DOMAIN g.axes : g.axes[i].name = name /\ g.axes[i].n = n
\* the axes are numbered 1, 3, 5, ... on one side and 2, 4, ... on the other
RECURSIVE Off(_, _)
\* an axis can be painted at a value of the other one: e.at = <<n, d>>
Moved(g, e, r) == IF e.at = <<>> THEN r
                  ELSE LET a == LineAt(g, e, 0)
                           mx == IF Upright(g, e) THEN 0 ELSE g.x + Div(g.w * e.at[1], e.at[2]) - a.x0
                           my == IF Upright(g, e) THEN g.y + Div(g.h * e.at[1], e.at[2]) - a.y0 ELSE 0
                       IN [r EXCEPT !.strokes = [i \in DOMAIN @ |-> Stroke(<<@[i].x0 + mx, @[i].y0 + my>>, <<@[i].x1 + mx, @[i].y1 + my>>, @[i].c)],
                                    !.texts = [i \in DOMAIN @ |-> [x |-> @[i].x + mx, y |-> @[i].y + my, lx |-> @[i].lx + mx, ly |-> @[i].ly + my, c |-> @[i].c]]]
\* (grid lines stay within the graph)
Painted(g, e) == LET a == LineAt(g, e, Off(g, e)) IN
                 IF e.at = <<>> THEN Paint(a, e.x, e.p, Grid(g, e))
                 ELSE LET r == Moved(g, e, Paint(a, e.x, [e.p EXCEPT !.grid.on = FALSE], Grid(g, e)))
                      IN [r EXCEPT !.strokes = @ \o Paint(a, e.x, [e.p EXCEPT !.tick.on = FALSE, !.base = "none"], Grid(g, e)).strokes]
Off(g, e) == IF e.n <= 2 THEN 0
             ELSE LET d == g.axes[Find(g, e.name, e.n - 2)]
                      o == Off(g, d)
                  IN o + Paint(LineAt(g, d, o), d.x, d.p, Grid(g, d)).ext + g.axesdist
Strokes(g) == Cat([i \in DOMAIN g.axes |-> Painted(g, g.axes[i]).strokes], 1)
Texts(g) == Cat([i \in DOMAIN g.axes |-> Painted(g, g.axes[i]).texts], 1)
=============================================================================
