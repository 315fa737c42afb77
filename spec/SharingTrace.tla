---------------------------- MODULE SharingTrace ----------------------------
(* t.ev: objects, graphs, calls and drawings; t.refs: drawings of graphs made of new objects in a    *)
(* process in which nothing else happened: [r |-> recipe, d |-> <<drawing in each format>>]           *)
EXTENDS TraceLib, Sharing
VARIABLES tid, l, st, err
Drawn(t, r, f) == {t.refs[i].d[f] : i \in {i \in DOMAIN t.refs : t.refs[i].r = r}}
TStep(s, e) ==
  CASE e.k = "object" -> Clauses([s EXCEPT !.objs = Append(@, [v |-> e.v, in |-> e.in, id |-> e.id])], << <<e.failed = "", "object-failed">> >>)
    [] e.k = "graph" -> Clauses([s EXCEPT !.gs = Append(@, NewGraph(e.v, e.in))], << <<e.failed = "", "graph-failed">> >>)
    [] e.k = "call" -> IF Refuses(s.gs[e.g], e.c) THEN Clauses(s, << <<e.failed # "", "late-plot">> >>)
                       ELSE Clauses([s EXCEPT !.gs[e.g] = Call(@, e.c, e.in)], << <<e.failed = "", "call-failed">> >>)
    [] e.k = "write" -> LET g == Write(s.gs[e.g]) IN
                        Clauses([s EXCEPT !.gs[e.g] = g],
                                << <<e.failed = "", "write-failed">>,
                                   <<Drawn(Traces[tid], Recipe(s.objs, g), e.f) # {}, "no-reference">>,
                                   <<Drawn(Traces[tid], Recipe(s.objs, g), e.f) = {e.d}, "drawing">> >>)
    [] OTHER -> \* the contents of the lists given
                Clauses(s, << <<e.before = e.after, "list-changed">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = [objs |-> <<>>, gs |-> <<>>] /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
