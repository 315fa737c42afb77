----------------------------- MODULE GraphLife -----------------------------
(* The life of a graph: plotting, fixing the ranges, drawing the parts, the key, writing.          *)
(* Kinds: the plots one can add: [lo, hi, dyn |-> computed over the axis range, title, grp |-> which *)
(* shared list of styles]                                                                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Kinds
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
NewGraph == [plots |-> <<>>, rng |-> <<>>, sty |-> <<>>, bg |-> 0, axes |-> 0, data |-> <<>>, keyq |-> <<>>, kdone |-> {}, key |-> <<>>, keydone |-> FALSE]
RECURSIVE Ext(_, _, _)
Ext(ps, i, r) == IF i > Len(ps) THEN r
                 ELSE LET k == Kinds[ps[i]] IN
                      Ext(ps, i + 1, IF k.dyn THEN r ELSE IF r = <<>> THEN <<k.lo, k.hi>> ELSE <<Min2(r[1], k.lo), Max2(r[2], k.hi)>>)
Ranges(g) == IF g.rng # <<>> THEN g ELSE [g EXCEPT !.rng = Ext(g.plots, 1, <<>>)]
Background(g) == [g EXCEPT !.bg = 1]
\* which of the n plots of the same style list a plot is
Select(ps) == [i \in DOMAIN ps |-> <<Cardinality({j \in 1..(i - 1) : Kinds[ps[j]].grp = Kinds[ps[i]].grp}), Cardinality({j \in DOMAIN ps : Kinds[ps[j]].grp = Kinds[ps[i]].grp})>>]
Styles(g) == IF g.sty # <<>> THEN g ELSE LET h == Background(Ranges(g)) IN [h EXCEPT !.sty = Select(h.plots)]
Axes(g) == [Background(Ranges(g)) EXCEPT !.axes = 1]
In(x, s) == \E i \in DOMAIN s : s[i] = x
PlotItem(g, i) == IF In(i, g.data) THEN g ELSE LET h == Styles(g) IN [h EXCEPT !.data = Append(@, i)]
KeyItem(g, i) == IF i \in g.kdone THEN g ELSE LET h == Styles(g) IN [h EXCEPT !.kdone = @ \cup {i}, !.keyq = IF Kinds[g.plots[i]].title THEN Append(@, i) ELSE @]
RECURSIVE Fold(_, _, _)
Fold(g, i, key) == IF i > Len(g.plots) THEN g ELSE Fold(IF key THEN KeyItem(g, i) ELSE PlotItem(g, i), i + 1, key)
DoPlot(g) == Fold(g, 1, FALSE)
DoKey(g) == IF g.keydone THEN g ELSE LET h == Fold(Background(g), 1, TRUE) IN [h EXCEPT !.key = h.keyq, !.keydone = TRUE]
Finish(g) == DoKey(DoPlot(Axes(Background(g))))
Refuses(g, o) == o.k = "plot" /\ g.sty # <<>>
Do(g, o) ==
  IF Refuses(g, o) THEN g ELSE
  CASE o.k = "plot" -> [g EXCEPT !.plots = Append(@, o.i)]
    [] o.k \in {"ranges", "axis", "layout", "pos"} -> Ranges(g)
    [] o.k = "background" -> Background(g)
    [] o.k = "axes" -> Axes(g)
    [] o.k = "styles" -> Styles(g)
    [] o.k = "plotitem" -> PlotItem(g, o.i)
    [] o.k = "keyitem" -> KeyItem(g, o.i)
    [] o.k = "doplot" -> DoPlot(g)
    [] o.k = "key" -> DoKey(g)
    [] OTHER -> Finish(g)
\* what a finished graph shows: each drawn plot with its place among the plots of its style list and the part of it inside of the graph
Seen(g, i) == LET k == Kinds[g.plots[i]]
                  lo == IF k.dyn THEN g.rng[1] ELSE Max2(k.lo, g.rng[1])
                  hi == IF k.dyn THEN g.rng[2] ELSE Min2(k.hi, g.rng[2])
              IN [p |-> g.plots[i], sel |-> g.sty[i], part |-> IF lo < hi THEN <<lo, hi>> ELSE <<>>]
Drawing(g) == [bg |-> g.bg, axes |-> g.axes, rng |-> g.rng, data |-> [n \in DOMAIN g.data |-> Seen(g, g.data[n])], key |-> [n \in DOMAIN g.key |-> Seen(g, g.key[n])]]
=============================================================================
