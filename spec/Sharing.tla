------------------------------ MODULE Sharing ------------------------------
(* Objects which graphs are made of, shared among graphs, and the drawings of the graphs.          *)
(* An object is [v |-> what it is, in |-> <<objects it was made of>>, id |-> whether its identity   *)
(* means something (style instances: plots with the same instances in one graph count together)].   *)
(* A graph is [v, in, calls], a call [c |-> name, in |-> <<objects>>].  Nothing else matters: the   *)
(* drawing of a graph is a function of its own recipe.                                               *)
EXTENDS Integers, Sequences, FiniteSets
\* the recipe of a graph: values, with the styles numbered by their first appearance in this graph
RECURSIVE Flat(_, _), FlatAll(_, _, _)
Flat(objs, o) == <<o>> \o FlatAll(objs, objs[o].in, 1)
FlatAll(objs, s, i) == IF i > Len(s) THEN <<>> ELSE Flat(objs, s[i]) \o FlatAll(objs, s, i + 1)
RECURSIVE CallObjs(_, _)
CallObjs(calls, i) == IF i > Len(calls) THEN <<>> ELSE calls[i].in \o CallObjs(calls, i + 1)
Order(objs, g) == LET all == FlatAll(objs, g.in \o CallObjs(g.calls, 1), 1)
                  IN SelectSeq(all, LAMBDA o : objs[o].id)
Place(seq, o) == CHOOSE i \in DOMAIN seq : seq[i] = o /\ \A j \in 1..(i - 1) : seq[j] # o
RECURSIVE Val(_, _, _)
Val(objs, order, o) == [v |-> objs[o].v, n |-> IF objs[o].id THEN Place(order, o) ELSE 0,
                        in |-> [i \in DOMAIN objs[o].in |-> Val(objs, order, objs[o].in[i])]]
Recipe(objs, g) == LET order == Order(objs, g) IN
                   [v |-> g.v, in |-> [i \in DOMAIN g.in |-> Val(objs, order, g.in[i])],
                    calls |-> [i \in DOMAIN g.calls |-> [c |-> g.calls[i].c, in |-> [j \in DOMAIN g.calls[i].in |-> Val(objs, order, g.calls[i].in[j])]]]]
NewGraph(v, in) == [v |-> v, in |-> in, calls |-> <<>>, written |-> FALSE]
\* a graph which was written does not take plots any more; calls which only draw parts of it earlier do not matter after that either
Call(g, c, in) == IF g.written THEN g ELSE [g EXCEPT !.calls = Append(@, [c |-> c, in |-> in])]
Write(g) == [g EXCEPT !.written = TRUE]
Refuses(g, c) == c = "plot" /\ (g.written \/ \E i \in DOMAIN g.calls : g.calls[i].c \in {"styles", "doplot", "finish"})
=============================================================================
