---------------------------- MODULE LayersTrace ----------------------------
EXTENDS TraceLib, Layers
VARIABLES tid, l, st, err
TInit(t) == <<>>
TStep(s, e) ==
  IF e.k = "draw" THEN LET d == Draw(s, e.p, e.id) IN Clauses(d, << <<e.out = "ok", "draw-failed">>, <<e.flat = Flat(d), "paint-order">> >>)
  ELSE IF e.k = "layer" THEN
     LET q == Request(s, e.p, e.w, e.r)
     IN Clauses(q.c, << <<(e.out = "ok") = q.ok, "layer-request-outcome">>,
                        <<e.flat = Flat(q.c), IF q.ok THEN "paint-order" ELSE "refused-request-changed-canvas">> >>)
  ELSE Clauses(<<>>, << <<e.out = "ok", "clear-failed">>, <<e.flat = <<>>, "clear">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = TInit(Traces[i]) /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
