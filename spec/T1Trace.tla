------------------------------- MODULE T1Trace -------------------------------
(* F01: glyphs of real fonts: the recorded outline and width are those the charstring machine computes from the glyph's program. Recorded numbers are 1/1000. *)
EXTENDS TraceLib, T1
VARIABLES tid, l, st, err
Is(q, r) == AbsI((1000 * q[1]) \div q[2] - r) <= 1
IsPt(p, r) == Is(p[1], r[1]) /\ Is(p[2], r[2])
Same(out, rec) == /\ Len(out) = Len(rec)
                  /\ \A i \in DOMAIN out : /\ out[i].closed = rec[i].closed /\ IsPt(out[i].at, rec[i].at) /\ Len(out[i].segs) = Len(rec[i].segs)
                        /\ \A j \in DOMAIN out[i].segs : Len(out[i].segs[j]) = Len(rec[i].segs[j]) /\ \A k \in DOMAIN out[i].segs[j] : IsPt(out[i].segs[j][k], rec[i].segs[j][k])
TStep(s, e) ==
  IF e.failed # "" THEN Bad(s, "refused")
  ELSE LET font == [subrs |-> e.subrs, glyphs |-> [c \in {e.codes[i] : i \in DOMAIN e.codes} |-> e.progs[CHOOSE i \in DOMAIN e.codes : e.codes[i] = c]]]
           m == Run(font, Start, e.cmds)
       \* programs the machine does not define (operands left over, say) are not judged
       IN IF m.err # "" THEN Ok(s) ELSE Clauses(s, << <<IsPt(m.w, e.w), "width">>, <<Same(Outline(m), e.out), "outline">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
