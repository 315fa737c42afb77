---------------------------- MODULE LengthTrace -----------------------------
(* Histories over four lengths and the scales of the length kinds. *)
EXTENDS TraceLib, Length
VARIABLES tid, l, st, err
TInit(t) == [r |-> <<Zero5, Zero5, Zero5, Zero5>>, sc |-> <<4, 4, 4, 4, 4>>, du |-> "cm"]
\* plain numbers are user lengths in the default unit
Plain(s, n) == LNew(n, "u", s.du)
Other(s, e) == IF e.plain THEN Plain(s, e.n) ELSE s.r[e.y]
Result(s, e) ==
  CASE e.op = "new" -> LNew(e.n, e.kind, IF e.unit = "" THEN s.du ELSE e.unit)
    [] e.op \in {"add", "radd"} -> LAdd(s.r[e.x], Other(s, e))
    [] e.op = "sub" -> LSub(s.r[e.x], Other(s, e))
    [] e.op = "rsub" -> LSub(Other(s, e), s.r[e.x])
    [] e.op \in {"mul", "rmul"} -> LMul(s.r[e.x], e.n)
    [] e.op = "div" -> LDiv(s.r[e.x], e.n)
    [] e.op = "neg" -> LNeg(s.r[e.x])
    [] OTHER -> s.r[e.z]
Scales(s, e) == IF e.op # "set" THEN s
                ELSE [s EXCEPT !.sc = <<4>> \o [i \in 1..4 |-> IF e.set[i] < 0 THEN s.sc[i + 1] ELSE e.set[i]],
                               !.du = IF e.unit = "" THEN s.du ELSE e.unit]
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
TStep(s0, e) ==
  LET s1 == Scales(s0, e)
      s == [s1 EXCEPT !.r[e.z] = Result(s1, e)]
      ex == LTotal(s.r[e.x], s.sc) oth == LTotal(Other(s, e), s.sc)
  IN Clauses(s, << <<e.ok, "raised">>,
                   <<e.op = "div" => LDivides(s0.r[e.x], e.n), "harness-div">>,
                   <<e.op = "cmp" => (ex = oth /\ ~e.same) \/ e.res = <<Sign(ex - oth)>>, "compare">>,
                   <<e.op = "ratio" => (oth # 0 /\ e.res[1] * oth = ex), "ratio">>,
                   <<e.op = "tonum" => e.res = <<LTotal(Plain(s, e.n), s.sc)>>, "plain-number">>,
                   <<e.op = "draw" => e.res = <<LTotal(s.r[e.x], s.sc), LTotal(s.r[e.y], s.sc), LTotal(s.r[e.z], s.sc)>>, "written">>,
                   <<e.obs[e.z] = LTotal(s.r[e.z], s.sc), "result">>,
                   <<e.obs = [i \in 1..4 |-> LTotal(s.r[i], s.sc)], "other-changed">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = TInit(Traces[i]) /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
