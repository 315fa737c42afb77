----------------------------- MODULE LookupTrace -----------------------------
(* t.ev: the first event is the arrangement (with the configuration files), then requests for files and options, *)
(* or a text and what was read from it token by token.                                                            *)
EXTENDS TraceLib, Lookup, Tokens
VARIABLES tid, l, st, err
Value(layers, v, how) == CASE how = "get" -> v.text [] how = "int" -> v.int [] how = "float" -> v.float [] how = "bool" -> v.bool [] OTHER -> ListOf(layers, v)
TStep(s, e) ==
  CASE e.k = "setup" -> Clauses([a |-> e.a, layers |-> e.layers, seen |-> {}], << <<e.failed = "", "failed">> >>)
    [] e.k = "open" ->
         LET f == Find(s.a, ListOf(s.layers, Option(s.layers, "filelocator", "methods")[1]), e) IN
         Clauses([s EXCEPT !.seen = @ \cup {<<e.name, e.formats, e.got>>}],
                 << <<e.failed \in {"", "missing"}, "failed">>,
                    <<f = {} => e.failed = "missing", "found-elsewhere">>,
                    <<f # {} => e.failed = "", "not-found">>,
                    <<f # {} => e.got \in f, "wrong-file">>,
                    <<\A x \in s.seen : x[1] = e.name /\ x[2] = e.formats => x[3] = e.got, "inconsistent">> >>)
    [] e.k = "option" -> LET v == Option(s.layers, e.s, e.o) IN
         Clauses(s, << <<e.failed \in {"", "missing"}, "option-failed">>,
                       <<(v = <<>> /\ ~e.default) => e.failed = "missing", "undefined-option">>,
                       <<(v # <<>> \/ e.default) => e.failed = "", "option-missing">>,
                       <<(v = <<>> /\ e.default) => e.isdefault, "default">>,
                       <<v # <<>> => ~e.isdefault /\ e.got = Value(s.layers, v[1], e.how), "value">> >>)
    [] e.k = "text" -> Clauses([s |-> e.s, p |-> e.p], << <<e.failed = "", "failed">> >>)
    [] e.k = "token" -> LET t == Token(s.s, s.p) IN
         Clauses([s EXCEPT !.p = t.next], << <<(t.from <= Len(s.s)) => e.failed = "", "token-failed">>,
                                             <<(t.from <= Len(s.s)) => e.got = SubSeq(s.s, t.from, t.to - 1), "token">>,
                                             <<(t.from <= Len(s.s)) => e.pos = t.next, "position">> >>)
    [] OTHER -> \* so many bytes
         Clauses([s EXCEPT !.p = @ + e.n], << <<e.failed = "", "bytes-failed">>, <<e.got = SubSeq(s.s, s.p, s.p + e.n - 1), "bytes">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
