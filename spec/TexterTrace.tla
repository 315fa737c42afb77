---------------------------- MODULE TexterTrace ----------------------------
(* The labels on real axes.  Event axis: [o |-> options of the texter, kind |-> "decimal" | "default", div |-> <<num, den>>,
   ticks |-> sequence of [q |-> <<num, den>>, lev |-> label level or -1, lab |-> label record as in Default or <<>>], 
   own |-> sequence of [q, lab]: ticks given with their own labels].                               *)
EXTENDS TraceLib, Texter
VARIABLES tid, l, st, err
Same(a, b) == a[1] * b[2] = b[1] * a[2]
\* such ticks are given in units of the divisor
OwnAt(e, q) == {i \in DOMAIN e.own : Same(<<e.own[i].q[1] * e.div[1], e.own[i].q[2] * e.div[2]>>, q)}
TStep(s, e) ==
  LET auto == SelectSeq([i \in DOMAIN e.ticks |-> i], LAMBDA i : e.ticks[i].lev >= 0 /\ OwnAt(e, e.ticks[i].q) = {})
      qs == [k \in DOMAIN auto |-> LET q == e.ticks[auto[k]].q IN LET r == Reduce(AbsI(q[1]) * e.div[2], q[2] * e.div[1]) IN <<Sign(q) * r[1], r[2]>>]
      want == IF e.kind = "decimal" THEN [k \in DOMAIN qs |-> [exp |-> FALSE, skip |-> FALSE, man |-> Dec(e.o, qs)[k], base |-> <<>>, ex |-> <<>>]] ELSE Default(e.o, qs)
  IN Clauses(s, << <<e.ok, "labels-refused">>,
                   <<\A i \in DOMAIN e.ticks : (e.ticks[i].lev < 0 /\ OwnAt(e, e.ticks[i].q) = {}) => e.ticks[i].lab = <<>>, "label-without-level">>,
                   <<\A i \in DOMAIN e.ticks : \A j \in OwnAt(e, e.ticks[i].q) : e.ticks[i].lab = <<e.own[j].lab>>, "own-label-changed">>,
                   <<\A k \in DOMAIN auto : e.ticks[auto[k]].lab # <<>>, "label-missing">>,
                   <<\A k \in DOMAIN auto : e.ticks[auto[k]].lab # <<>> => e.ticks[auto[k]].lab[1] = want[k], "label-text">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
