---------------------------- MODULE MessagesTrace ----------------------------
(* t.ev: texts typeset by TeX which wrote messages (e.s: their kinds), with the parsers given; accepted or not. *)
(* Or parsers applied one after the other: what was left (e.got), as text without blanks; e.texts: the texts of the passages. *)
EXTENDS TraceLib, Messages
VARIABLES tid, l, st, err
RECURSIVE Join(_, _)
Join(texts, at) == IF at = <<>> THEN "" ELSE texts[at[1]] \o Join(texts, Tail(at))
TStep(s, e) ==
  LET r == ParseAll(e.ps, e.s, All(e.s)) IN
  IF e.k = "engine" THEN
       LET accepted == r.ok /\ r.keep = <<>> IN
       Clauses(s, << <<e.failed \in {"", "tex"}, "failed">>, <<accepted => e.failed = "", "refused">>, <<~accepted => e.failed = "tex", "accepted">> >>)
  ELSE Clauses(s, << <<e.failed \in {"", "tex"}, "failed">>, <<r.ok => e.failed = "", "refused">>, <<~r.ok => e.failed = "tex", "accepted">>,
                     <<r.ok => e.got = Join(e.texts, r.keep), "left">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
