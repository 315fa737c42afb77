----------------------------- MODULE SharingMC -----------------------------
(* All histories of two or three graphs made of a small pool of objects, with and without sharing.   *)
EXTENDS Sharing, TLC, Json
CONSTANTS MaxOps, MaxGraphs
\* the pool: two axes of equal value, another one, one data set twice, another data set, a style twice, a style with the same attributes
Obj(v, in, id) == [v |-> v, in |-> in, id |-> id]
Pool == << Obj("attrs:change", <<>>, FALSE), Obj("axis:auto", <<>>, FALSE), Obj("axis:auto", <<>>, FALSE), Obj("data:low", <<>>, FALSE), Obj("data:low", <<>>, FALSE),
           Obj("data:high", <<>>, FALSE), Obj("style:line", <<1>>, TRUE), Obj("style:line", <<1>>, TRUE) >>
Axes == {2, 3}
Data == {4, 6}
Styles == {7, 8}
VARIABLES gs, ops
Init == gs = <<>> /\ ops = <<>>
New(x) == gs' = Append(gs, NewGraph("xy", <<x, 2>>)) /\ ops' = Append(ops, [k |-> "graph", g |-> 0, c |-> "", in |-> <<x, 2>>])
Do(i, c, in) == gs' = [gs EXCEPT ![i] = IF Refuses(@, c) THEN @ ELSE Call(@, c, in)] /\ ops' = Append(ops, [k |-> "call", g |-> i, c |-> c, in |-> in])
Wr(i) == gs' = [gs EXCEPT ![i] = Write(@)] /\ ops' = Append(ops, [k |-> "write", g |-> i, c |-> "", in |-> <<>>])
Next == /\ Len(ops) < MaxOps
        /\ \/ Len(gs) < MaxGraphs /\ \E x \in Axes : New(x)
           \/ \E i \in DOMAIN gs : \/ \E d \in Data, s \in Styles : Do(i, "plot", <<d, s>>)
                                   \/ Do(i, "ranges", <<>>)
                                   \/ Wr(i)
Of(i) == Recipe(Pool, gs[i])
\* the objects a recipe is made of can be exchanged for equal ones
Swap == [o \in DOMAIN Pool |-> CASE o = 2 -> 3 [] o = 3 -> 2 [] o = 7 -> 8 [] o = 8 -> 7 [] o = 4 -> 5 [] o = 5 -> 4 [] OTHER -> o]
Swapped(g) == [g EXCEPT !.in = [i \in DOMAIN g.in |-> Swap[g.in[i]]], !.calls = [j \in DOMAIN g.calls |-> [g.calls[j] EXCEPT !.in = [i \in DOMAIN g.calls[j].in |-> Swap[g.calls[j].in[i]]]]]]
Values == \A i \in DOMAIN gs : Recipe(Pool, Swapped(gs[i])) = Of(i)
\* no operation on one graph changes the recipe of another one
Apart == [][\A i \in DOMAIN gs : ops'[Len(ops')].g # i => Recipe(Pool, gs'[i]) = Of(i)]_<<gs, ops>>
Fixed == [][\A i \in DOMAIN gs : gs[i].written => Recipe(Pool, gs'[i]) = Of(i)]_<<gs, ops>>
Emit == Len(ops) = MaxOps => PrintT("@" \o ToJson([ops |-> ops, recipes |-> [i \in DOMAIN gs |-> Of(i)]]))
=============================================================================
