------------------------------ MODULE BarTrace ------------------------------
(* Recorded histories of bar axes.  Events: adjust [vs, ok]; made [ok]; conv [v, ok, r];            *)
(* layout [subs |-> <<[p, b, e, ob, oe]>>] positions of the sub-axes (times S); names [p, v] painted names. *)
EXTENDS TraceLib, BarAxis
VARIABLES tid, l, st, err
S == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
Close(v, p) == Abs(v * p[2] - p[1] * S) <= p[2] + (p[2] \div 2)
TInit(t) == [d |-> New(t.cfg), made |-> FALSE]
\* the interval of the sub-axis with the given names within the whole axis: <<numerator, denominator>> of a point at q within it
RECURSIVE At(_, _, _, _)
At(c, st_, p, f) == LET i == IdxOf(st_, p[1]) d == Size(c, st_) IN
    IF Len(p) = 1 THEN CASE f = "b" -> <<Begin(c, st_, i), d>> [] f = "e" -> <<End(c, st_, i), d>>
                         [] f = "ob" -> <<OverBegin2(c, st_, i), 2 * d>> [] f = "oe" -> <<OverEnd2(c, st_, i), 2 * d>>
                         [] f = "m" -> <<Begin(c, st_, i) + End(c, st_, i), 2 * d>>
    ELSE LET q == At(CfgOf(c, p[1]), st_.subs[i], Tail(p), f) IN <<Begin(c, st_, i) * q[2] + q[1] * Sizes(c, st_)[i], d * q[2]>>
RECURSIVE All(_, _)
All(c, st_) == UNION {LET sc == CfgOf(c, st_.names[i]) IN {<<st_.names[i]>>} \cup (IF sc.k = "bar" THEN {<<st_.names[i]>> \o p : p \in All(sc, st_.subs[i])} ELSE {}) : i \in DOMAIN st_.names}
RECURSIVE KnownV(_, _)
KnownV(c, p) == p = <<>> \/ c.k # "bar" \/ (Known(c, p[1]) /\ KnownV(CfgOf(c, p[1]), Tail(p)))
TStep(s, e, t) ==
  IF e.k = "adjust" THEN
     IF s.made THEN Ok(s)
     ELSE IF \E i \in DOMAIN e.vs : ~KnownV(t.cfg, e.vs[i].p) THEN Bad(s, "unexpected-name")
     ELSE Clauses([s EXCEPT !.d = Adj(t.cfg, s.d, e.vs)], << <<e.ok, "data-refused">> >>)
  ELSE IF e.k = "made" THEN Clauses([s EXCEPT !.made = TRUE], << <<e.ok = Ready(t.cfg, s.d), IF e.ok THEN "impossible-range-accepted" ELSE "layout-refused">> >>)
  ELSE IF e.k = "conv" THEN
     LET q == Place(t.cfg, s.d, e.v) IN
     Clauses(s, << <<e.ok = (q # <<>>), IF e.ok THEN "value-off-axis-accepted" ELSE "value-refused">>, <<e.ok => Close(e.r, q), "position">> >>)
  ELSE IF e.k = "layout" THEN
     Clauses(s, << <<{e.subs[i].p : i \in DOMAIN e.subs} = All(t.cfg, s.d), "set-of-sub-axes">>,
       <<\A i \in DOMAIN e.subs : Close(e.subs[i].b, At(t.cfg, s.d, e.subs[i].p, "b")) /\ Close(e.subs[i].e, At(t.cfg, s.d, e.subs[i].p, "e")), "sub-axis-extent">>,
       <<\A i \in DOMAIN e.subs : Close(e.subs[i].ob, At(t.cfg, s.d, e.subs[i].p, "ob")) /\ Close(e.subs[i].oe, At(t.cfg, s.d, e.subs[i].p, "oe")), "sub-axis-base-path">> >>)
  ELSE Clauses(s, << <<Len(e.names) = Len(s.d.names) /\ \A i \in DOMAIN e.names : e.names[i].n = s.d.names[i], "painted-names">>,
                     <<\A i \in DOMAIN e.names : Close(e.names[i].v, At(t.cfg, s.d, <<e.names[i].n>>, "m")), "name-position">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = TInit(Traces[i]) /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1], Traces[tid]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
