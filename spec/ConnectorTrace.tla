---------------------------- MODULE ConnectorTrace ----------------------------
(* K02: connectors of real boxes. *)
EXTENDS TraceLib, Connector
VARIABLES tid, l, st, err
TStep(s, e) ==
  IF e.failed # "" THEN Bad(s, "refused")
  ELSE Clauses(s, (CASE e.k = "line" -> LineOk(e) [] e.k = "twolines" -> TwoOk(e) [] e.k = "arc" -> ArcOk(e) [] e.k = "curve" -> CurveOk(e) [] OTHER -> <<>>) \o << <<e.unmoved, "boxes-moved">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
