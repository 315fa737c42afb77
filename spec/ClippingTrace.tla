---------------------------- MODULE ClippingTrace ----------------------------
(* t.ev: one event per plot: [ps, lo, hi, lines |-> recorded subpaths in thousandths of the range, syms |-> recorded symbols] *)
EXTENDS TraceLib, Clipping
VARIABLES tid, l, st, err
S == 1000
Near(v, q, lo, hi) == \* v / S = (q - lo) / (hi - lo)
   AbsI(v * (hi - lo) * q[2] - S * (q[1] - lo * q[2])) <= 2 * (hi - lo) * q[2]
NearP(v, q, lo, hi) == Len(v) = Len(q) /\ \A i \in DOMAIN q : Near(v[i], q[i], lo, hi)
RECURSIVE DedupN(_)
DedupN(c) == IF Len(c) <= 1 THEN c ELSE IF c[1] = c[2] THEN DedupN(Tail(c)) ELSE <<c[1]>> \o DedupN(Tail(c))
TStep(s, e) ==
  LET want == Lines(e.ps, e.lo, e.hi)
      got == SelectSeq([k \in DOMAIN e.lines |-> DedupN(e.lines[k])], LAMBDA c : Len(c) > 1)
      sy == Symbols(e.ps, e.lo, e.hi)
      \* lines shorter than the resolution may be missing
      long == SelectSeq(want, LAMBDA c : \E i \in DOMAIN c : \E j \in DOMAIN c[1] : AbsI((c[i][j][1] * c[1][j][2] - c[1][j][1] * c[i][j][2]) * S) > 3 * (e.hi - e.lo) * c[i][j][2] * c[1][j][2])
  IN Clauses(s, << <<e.ok, "plot-refused">>,
                   <<Len(got) = Len(want) \/ Len(got) = Len(long), "number-of-lines">>,
                   <<LET w == IF Len(got) = Len(want) THEN want ELSE long IN \A k \in DOMAIN got : Len(got[k]) = Len(w[k]) => \A i \in DOMAIN got[k] : NearP(got[k][i], w[k][i], e.lo, e.hi), "line-position">>,
                   <<LET w == IF Len(got) = Len(want) THEN want ELSE long IN \A k \in DOMAIN got : Len(got[k]) # Len(w[k]) => (NearP(got[k][1], w[k][1], e.lo, e.hi) /\ NearP(got[k][Len(got[k])], w[k][Len(w[k])], e.lo, e.hi) /\ Len(got[k]) < Len(w[k])), "line-corners">>,
                   <<Len(e.syms) = Len(sy), "number-of-symbols">>,
                   <<\A i \in DOMAIN e.syms : NearP(e.syms[i], Ends(sy[i]), e.lo, e.hi), "symbol-position">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
