----------------------------- MODULE PainterMC -----------------------------
(* One axis on every side of a graph (or along a diagonal line) with every combination of the options of its painter. *)
EXTENDS Painter, TLC, Json
CONSTANT Deep
T(v, tl, ll, w, h, c) == [v |-> v, tl |-> tl, ll |-> ll, w |-> w, h |-> h, c |-> c]
TickLists == { << T(0, 0, 0, 400, 400, "#101010"), T(2, 1, -1, 200, 200, ""), T(3, -1, 0, 1200, 600, "#202020"), T(4, 0, 1, 2000, 200, "#303030") >>,
               << T(1, 1, 1, 800, 800, "#101010") >> } \cup (IF Deep THEN { <<>>, << T(0, 2, -1, 200, 200, ""), T(1, 0, 0, 200, 1000, "#202020") >> } ELSE {})
Names == << [w |-> 400, h |-> 400, c |-> "#101010"], [w |-> 2000, h |-> 200, c |-> "#202020"], [w |-> 200, h |-> 1200, c |-> "#303030"] >>
Lin(ts, rev, ti) == [kind |-> "lin", lo |-> 0, hi |-> 4, rev |-> rev, ticks |-> ts, names |-> <<>>, title |-> ti]
Bar(rev, ti) == [kind |-> "bar", lo |-> 0, hi |-> 1, rev |-> rev, ticks |-> <<>>, names |-> Names, title |-> ti]
Sides == {"below", "left", "above", "right", "line", "line back"}
Line(s) == CASE s = "below" -> [x0 |-> 0, y0 |-> 0, x1 |-> 24000, y1 |-> 0, dx |-> 0, dy |-> 10]
             [] s = "left" -> [x0 |-> 0, y0 |-> 0, x1 |-> 0, y1 |-> 12000, dx |-> 10, dy |-> 0]
             [] s = "above" -> [x0 |-> 0, y0 |-> 12000, x1 |-> 24000, y1 |-> 12000, dx |-> 0, dy |-> -10]
             [] s = "right" -> [x0 |-> 24000, y0 |-> 0, x1 |-> 24000, y1 |-> 12000, dx |-> -10, dy |-> 0]
             [] s = "line" -> [x0 |-> 0, y0 |-> 0, x1 |-> 18000, y1 |-> 24000, dx |-> -8, dy |-> 6]
             [] OTHER -> [x0 |-> 18000, y0 |-> 24000, x1 |-> 0, y1 |-> 0, dx |-> -8, dy |-> 6]
Painters == [on : {TRUE}, inner : {<<>>, <<800, 400, 200>>, <<-300>>}, outer : {<<>>, <<600, NoLen>>},
             tick : {[on |-> TRUE, c |-> <<"#ff0000", "#00ff00">>], [on |-> TRUE, c |-> <<"#000000", "none">>], [on |-> FALSE, c |-> <<"#000000">>]},
             grid : {[on |-> FALSE, c |-> <<"#000000">>], [on |-> TRUE, c |-> <<"#0000ff", "none">>]}, base : {"#808000", "none"},
             label : BOOLEAN, dist : {500}, dir : {"none", "parallel", "orthogonal"}, heq : BOOLEAN, veq : BOOLEAN, title : BOOLEAN, tdist : {300}, tdir : {"none", "parallel", "orthogonal"}, tpos : {50, 100}, npos : {50}]
Titles == {<<>>, <<1600, 600, "#404040">>}
VARIABLES side, x, p, r
a == Line(side)
Init == /\ side \in Sides
        /\ x \in {Lin(ts, rev, ti) : ts \in TickLists, rev \in BOOLEAN, ti \in Titles} \cup {Bar(rev, ti) : rev \in BOOLEAN, ti \in Titles}
        /\ p \in Painters
        \* options without effect once each
        /\ (x.title = <<>> => p.title /\ p.tdir = "none" /\ p.tpos = 50) /\ (~p.title => p.tdir = "none" /\ p.tpos = 50)
        /\ (~p.label => p.dir = "none" /\ ~p.heq /\ p.veq)
        /\ (side \in {"line", "line back"} \/ x.kind = "bar" => ~p.grid.on)
        /\ (x.kind = "bar" => p.inner # <<800, 400, 200>> /\ p.outer # <<600, NoLen>> /\ p.tick.c # <<"#000000", "none">>)
        /\ (Deep \/ ((p.heq = ~p.veq) /\ (x.rev => p.base # "none") /\ (p.tdir = "orthogonal" => p.dir = "orthogonal")))
        /\ r = Paint(a, x, p, <<0, IF a.dx = 0 THEN 12000 ELSE 24000>>)
Next == FALSE /\ UNCHANGED <<side, x, p, r>>
\* how far outside of the line a point is (in tenths of hundredths)
Out(px, py) == -((px - a.x0) * a.dx + (py - a.y0) * a.dy)
Corners(t) == {<<t.lx, t.ly>>, <<2 * t.x - t.lx, 2 * t.y - t.ly>>}
IsTitle(t) == t.c = "#404040"
Texts1 == {r.texts[i] : i \in DOMAIN r.texts}
\* all labels are outside of the axis, at least by their distance; everything is within the extent; the title is beyond the labels
Outside == \A t \in Texts1 : \A c \in Corners(t) : Out(c[1], c[2]) \in (10 * p.dist - 10)..(10 * r.ext + 10) \/ IsTitle(t)
Beyond == \A t \in Texts1, u \in Texts1 : (IsTitle(t) /\ ~IsTitle(u)) => \A c \in Corners(t), d \in Corners(u) : Out(c[1], c[2]) >= Out(d[1], d[2]) + 10 * p.tdist - 10
\* equalized labels share a line
Aligned == Equal(a, p) => \A t \in Texts1, u \in Texts1 : (~IsTitle(t) /\ ~IsTitle(u)) => Out(t.x, t.y) = Out(u.x, u.y)
\* texts are never upside down
Readable == \A t \in Texts1 : t.lx <= t.x \/ t.lx - t.x <= 1000
Emit == PrintT("@" \o ToJson([side |-> side, x |-> x, p |-> p]))
=============================================================================
