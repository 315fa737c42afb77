---------------------------- MODULE SelectTrace ----------------------------
(* Plots of a real graph: event j carries the attributes the j-th plot was written with (<<>>: not drawn). *)
EXTENDS TraceLib, Select
VARIABLES tid, l, st, err
TInit(t) == 0
Same(x, v, scale) == x * v.den = v.num * scale
TStep(t, e) ==
  LET j == e.j p == t.plots
      sel == SelAll(t.styles[p[j]], Index(p, j), Total(p, j))
      V(k, d) == LastOf(sel[1], k, d)
  IN Clauses(0, << <<(sel = <<>>) = (e.obs = <<>>), "drawn">>,
                   <<sel = <<>> \/ e.obs = <<>> \/ e.obs[1].cap = V("cap", Val("cap", 0, 1)).num, "cap">>,
                   <<sel = <<>> \/ e.obs = <<>> \/ e.obs[1].join = V("join", Val("join", 0, 1)).num, "join">>,
                   <<sel = <<>> \/ e.obs = <<>> \/ e.obs[1].lw = V("lw", Val("lw", 4, 1)).num, "linewidth">>,
                   <<sel = <<>> \/ e.obs = <<>> \/ Same(e.obs[1].gray, V("gray", Val("gray", 0, 1)), 12), "colour">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = TInit(Traces[i]) /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(Traces[tid], Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
