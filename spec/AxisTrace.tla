----------------------------- MODULE AxisTrace -----------------------------
(* Histories of the axes of a graph (or of a single axis): t.axes is a sequence of                 *)
(* [n |-> name, of |-> "" or the name of the axis it is linked to, cfg].  Events:                  *)
(*   adjust [n, xs, late]   data for an axis                                                       *)
(*   made   [n, ok, rng, ticks |-> <<>> or <<first, last>>, ext]   the axis was laid out           *)
(*   conv   [n, x, v, via]  a value was converted to a position (times S)                          *)
EXTENDS TraceLib, AxisMap
VARIABLES tid, l, st, err
S == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
Idx(t, n) == CHOOSE i \in DOMAIN t.axes : t.axes[i].n = n
RECURSIVE Root(_, _)
Root(t, n) == LET x == t.axes[Idx(t, n)] IN IF x.of = "" THEN Idx(t, n) ELSE Root(t, x.of)
TInit(t) == [i \in DOMAIN t.axes |-> IF t.axes[i].of = "" THEN NewAxis(Norm(t.axes[i].cfg)) ELSE [lo |-> <<>>, hi |-> <<>>, made |-> FALSE]]
BAD == 99991
\* positions far outside are recorded as BAD
Close(v, p) == IF v = BAD THEN Abs(p[1]) > 14 * p[2] ELSE Abs(v * p[2] - p[1] * S) <= p[2] + (p[2] \div 2)
TStep(s, e, t) ==
  LET i == Root(t, e.n)
      cfg == Norm(t.axes[i].cfg)
      a == s[i]
  IN
  IF e.k = "adjust" THEN IF e.late THEN Ok(s) ELSE Ok([s EXCEPT ![i] = Adjust(cfg, a, e.xs)])
  ELSE IF e.k = "made" THEN
    IF ~a.made /\ ~CanMake(cfg, a) THEN Clauses(s, << <<~e.ok, "impossible-range-accepted">> >>)
    ELSE LET b == IF a.made THEN <<a.lo[1], a.hi[1]>> ELSE Base(cfg, a)
             free(fixed, v, end, lower) == IF a.made \/ fixed # <<>> \/ ~e.ext THEN v = end
                                           ELSE v = end \/ ((IF lower THEN v < end ELSE v > end) /\ v \in Range(e.ticks))
         IN Clauses([s EXCEPT ![i] = [a EXCEPT !.lo = <<e.rng[1]>>, !.hi = <<e.rng[2]>>, !.made = TRUE]],
              << <<e.ok, "range-refused">>,
                 <<free(cfg.min, e.rng[1], b[1], TRUE), "begin-of-range">>,
                 <<free(cfg.max, e.rng[2], b[2], FALSE), "end-of-range">> >>)
  ELSE IF ~a.made THEN Bad(s, "converted-before-made")
  ELSE Clauses(s, << <<e.ok, "conversion-refused">>, <<e.ok => Close(e.v, Pos(cfg, <<a.lo[1], a.hi[1]>>, e.x)), "position">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = TInit(Traces[i]) /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1], Traces[tid]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
