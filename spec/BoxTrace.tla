------------------------------ MODULE BoxTrace ------------------------------
(* Histories of box operations on four registers; every event carries the values of all of them. *)
EXTENDS TraceLib, Box
VARIABLES tid, l, st, err
TInit(t) == << <<>>, <<>>, <<>>, <<>> >>
New(s, e) ==
  LET x == s[e.x] y == s[e.y] IN
  CASE e.op \in {"add", "iadd"} -> Join(x, y)
    [] e.op \in {"mul", "imul"} -> Meet(x, y)
    [] e.op \in {"enlarge", "enlarged"} -> Grow(x, e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.op \in {"transform", "transformed"} -> Transformed(x, e.a)
    [] e.op = "include" -> Join(x, PointBox(e.a))
    [] e.op = "copy" -> x
    [] e.op = "set" -> y
    [] e.op = "make" -> e.a
    [] OTHER -> <<0>>
Floor10(v) == IF v >= 0 THEN v \div 10 ELSE -((9 - v) \div 10)
Ceil10(v) == -Floor10(-v)
Query(s, e) ==
  LET x == s[e.x] y == s[e.y] IN
  CASE e.op = "bool" -> <<IF x = <<>> THEN 0 ELSE 1>>
    [] e.op = "intersects" -> <<IF Overlap(x, y) THEN 1 ELSE 0>>
    [] e.op = "lowres" -> IF x = <<>> THEN <<>> ELSE <<Floor10(x[1]), Floor10(x[2]), Ceil10(x[3]), Ceil10(x[4])>>
    [] e.op = "sides" -> IF x = <<>> THEN <<>> ELSE <<x[2], x[1], x[4], x[3], x[3] - x[1], x[4] - x[2], x[1] + x[3], x[2] + x[4]>>
    [] e.op = "rect" -> x
    [] OTHER -> <<0>>
IsQuery(e) == e.op \in {"bool", "intersects", "lowres", "sides", "rect"}
TStep(s, e) ==
  LET n == IF IsQuery(e) THEN s ELSE [s EXCEPT ![e.z] = New(s, e)]
  IN Clauses(n, << <<e.ok, "raised">>,
                   <<~IsQuery(e) \/ e.res = Query(s, e), "query">>,
                   <<e.obs[e.z] = n[e.z], "result">>,
                   <<e.obs = n, "other-box-changed">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = TInit(Traces[i]) /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
