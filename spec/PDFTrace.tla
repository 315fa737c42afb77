------------------------------ MODULE PDFTrace ------------------------------
(* One trace per PDF file: the file as a whole, its objects, its pages and every content stream.      *)
EXTENDS TraceLib, PDFDoc
VARIABLES tid, l, st, err
S0 == [nums |-> {}, kinds |-> <<>>, pages |-> 0, shown |-> <<>>, res |-> {}, c |-> Start]
Sel(u, ops) == SelectSeq(u, LAMBDA x : x[1] \in ops)
TStep(s, e) ==
  CASE e.k = "failed" -> Bad(s, "write-refused")
    [] e.k = "file" -> LET r == Clauses(s, << <<e.header, "header">>, <<e.problem = "", "syntax-" \o e.problem>>, <<XrefGood(e), "xref-table">>,
                                              <<e.root \in Numbers(e.xref), "root">>, <<e.info \in Numbers(e.xref), "info">> >>)
                       IN [r EXCEPT !.s.nums = Numbers(e.xref), !.s.kinds = e.kinds]
    [] e.k = "obj" -> Clauses(s, << <<\A i \in DOMAIN e.refs : e.refs[i][2] \in s.nums, "dangling-reference">>,
                                    <<e.len = e.actual, "stream-length">>,
                                    <<\A i \in DOMAIN e.refs : NeedKind(e.refs[i][1]) # {} => s.kinds[e.refs[i][2]] \in NeedKind(e.refs[i][1]), "reference-of-wrong-kind">>,
                                    <<e.keys, "duplicate-keys">>, <<e.decodes, "stream-does-not-decode">> >>)
    [] e.k = "tree" -> Clauses(s, << <<e.count = Len(e.kids), "page-count">>, <<e.count = e.want, "number-of-pages">>, <<Unique(e.kids), "page-twice">>,
                                     <<\A i \in DOMAIN e.parents : e.parents[i] = e.node, "page-parent">> >>)
    \* the resources declared for a stream; what a name denotes is recorded with its uses
    [] e.k = "begin" -> [s |-> [s EXCEPT !.res = ToSet(e.res), !.c = Start, !.shown = <<>>], err |-> IF Unique(e.res) THEN "" ELSE "resource-name-twice"]
    [] e.k = "op" -> LET why == FirstBad(Legal(s.c, s.res, e), 1)
                     IN IF why # "" THEN Bad(s, why) ELSE Ok([s EXCEPT !.c = After(s.c, e), !.shown = IF e.shown = <<>> THEN @ ELSE Append(@, e.shown)])
    [] e.k = "end" -> Clauses(s, << <<Complete(s.c), "unbalanced-stream">>,
                                    <<~e.texts \/ s.shown = e.shown, "wrong-text">>,
                                    <<~e.check \/ Sel(s.c.uses, {"Do"}) = e.images, "wrong-image">>,
                                    <<~e.check \/ Sel(s.c.uses, {"sh"}) = e.shadings, "wrong-shading">>,
                                    <<~e.check \/ Sel(s.c.uses, {"scn"}) = e.patterns, "wrong-pattern">>,
                                    <<~e.check \/ Sel(s.c.uses, {"gs"}) = e.gs, "wrong-graphics-state">> >>)
    [] e.k = "annots" -> Clauses(s, << <<e.got = e.want, "annotations-of-page">>, <<e.rects, "annotation-rectangle">> >>)
    [] e.k = "form" -> Clauses(s, << <<e.got = e.want, "fields-of-form">> >>)
    \* exactly the buttons of the chosen value are on
    [] e.k = "buttons" -> Clauses(s, << <<e.v = "Off" \/ \E i \in DOMAIN e.states : e.v \in ToSet(e.states[i]), "button-value">>,
                                        <<\A i \in DOMAIN e.on : e.on[i] = IF e.v \in ToSet(e.states[i]) THEN e.v ELSE "Off", "button-state">>,
                                        <<\A i \in DOMAIN e.states : "Off" \in ToSet(e.states[i]) /\ Len(e.states[i]) = 2, "button-appearance">> >>)
    [] e.k = "choice" -> Clauses(s, << <<ToSet(e.v) \subseteq ToSet(e.opt), "choice-value">> >>)
    \* the date denotes the moment of writing (minutes)
    [] e.k = "date" -> Clauses(s, << <<e.valid, "date-format">>, <<e.local - e.sign * e.off - e.now \in -1..3, "creation-date">> >>)
    [] e.k = "meta" -> Clauses(s, << <<e.got = e.want, "document-information">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = S0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
