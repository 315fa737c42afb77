------------------------------ MODULE GraphMC ------------------------------
EXTENDS GraphLife, TLC, Json
CONSTANT MaxOps
TheKinds == << [lo |-> 0, hi |-> 10, dyn |-> FALSE, title |-> TRUE, grp |-> 1],
               [lo |-> -10, hi |-> 6, dyn |-> FALSE, title |-> TRUE, grp |-> 2],
               [lo |-> 0, hi |-> 0, dyn |-> TRUE, title |-> TRUE, grp |-> 1],
               [lo |-> 4, hi |-> 25, dyn |-> FALSE, title |-> FALSE, grp |-> 1] >>
VARIABLES g, ops
Ops(h) == {[k |-> "plot", i |-> i] : i \in 2..4} \cup {[k |-> k, i |-> 0] : k \in {"ranges", "axis", "layout", "pos", "background", "axes", "styles", "doplot", "key", "finish", "write", "bbox"}}
          \cup {[k |-> k, i |-> i] : k \in {"plotitem", "keyitem"}, i \in {1, Len(h.plots)}}
Init == g = Do(NewGraph, [k |-> "plot", i |-> 1]) /\ ops = <<>>
Next == Len(ops) < MaxOps /\ \E o \in Ops(g) : ops' = Append(ops, [k |-> o.k, i |-> o.i, ok |-> ~Refuses(g, o)]) /\ g' = Do(g, o)
F == Finish(g)
D == Drawing(F)
\* each plot is drawn exactly once, each titled plot is in the key exactly once
Once == /\ Len(F.data) = Len(g.plots) /\ {F.data[n] : n \in DOMAIN F.data} = DOMAIN g.plots
        /\ {F.key[n] : n \in DOMAIN F.key} = {i \in DOMAIN g.plots : Kinds[g.plots[i]].title} /\ Len(F.key) = Cardinality({i \in DOMAIN g.plots : Kinds[g.plots[i]].title})
        /\ F.bg = 1 /\ F.axes = 1
\* finishing again changes nothing; nothing that was fixed changes any more
Stable == Finish(F) = F /\ \A o \in Ops(F) : Drawing(Finish(Do(F, o))) = D
Fixed == [][(g.rng # <<>> => g'.rng = g.rng) /\ (g.sty # <<>> => g'.sty = g.sty /\ g'.plots = g.plots) /\ (g.keydone => g'.key = g.key)]_<<g, ops>>
\* the drawing does not depend on the calls made besides plotting, unless ranges were fixed early or single items asked for
Early == \E n \in DOMAIN ops : ops[n].k = "plot" /\ ops[n].ok /\ \E m \in 1..(n - 1) : ops[m].k # "plot"
Items == \E n \in DOMAIN ops : ops[n].k \in {"plotitem", "keyitem"}
RECURSIVE Fill(_, _)
Fill(h, n) == IF n > Len(ops) THEN h ELSE Fill(IF ops[n].k = "plot" /\ ops[n].ok THEN Do(h, ops[n]) ELSE h, n + 1)
Canonical == (~Early /\ ~Items) => D = Drawing(Finish(Fill(Do(NewGraph, [k |-> "plot", i |-> 1]), 1)))
Emit == Len(ops) = MaxOps => PrintT("@" \o ToJson([ops |-> ops, d |-> D, plots |-> g.plots]))
=============================================================================
