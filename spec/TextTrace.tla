------------------------------ MODULE TextTrace ------------------------------
(* t.ev: a history of text engines with what was observed; positions in hundredths of a point. *)
EXTENDS TraceLib, TextEngine
VARIABLES tid, l, st, err
Near(a, b) == a - b \in -2..2
Min2(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(S) == CHOOSE x \in S : \A y \in S : x >= y
SameBox(got, pts) == /\ Near(got[1], Min2({p[1] : p \in pts})) /\ Near(got[2], Min2({p[2] : p \in pts}))
                     /\ Near(got[3], Max2({p[1] : p \in pts})) /\ Near(got[4], Max2({p[2] : p \in pts}))
SamePaint(got, want) == /\ got.color = want[1] /\ Near(got.x[1], Min2(want[2])) /\ Near(got.x[2], Max2(want[2]))
                        /\ Near(got.y[1], Min2(want[3])) /\ Near(got.y[2], Max2(want[3]))
RECURSIVE AllPaints(_, _, _, _)
AllPaints(s, bs, maps, k) == IF k > Len(bs) THEN <<>> ELSE Paints(s.boxes[bs[k]], maps[k]) \o AllPaints(s, bs, maps, k + 1)
TStep(s, e) ==
  CASE e.k = "engine" -> Clauses(New(s, e.multi), << <<e.failed = "", "engine-failed">> >>)
    [] e.k = "reset" -> Clauses(Reset(s, e.e), << <<e.failed = "", "reset-failed">> >>)
    [] e.k = "preamble" ->
         LET i == Current(s, e.e) IN
         IF e.bad THEN Clauses(s, << <<i.st = "start" => e.failed = "tex", "error-unnoticed">>, <<e.failed # "", "late-preamble">> >>)
         ELSE Clauses(IF e.failed = "" THEN Preambled(s, e.e, e.defs) ELSE s,
                      << <<i.st = "start" => e.failed = "", "preamble-failed">>,
                         <<i.st \in {"typeset", "done"} => e.failed # "", "late-preamble">> >>)
    [] e.k = "text" ->
         IF ~s.engs[e.e].multi /\ Current(s, e.e).st = "done" THEN Clauses(s, << <<e.failed # "", "text-after-end">> >>)
         ELSE LET macros == Current(Prepared(s, e.e), e.e).macros IN
              IF Fails(e.t, macros)
              THEN Clauses(FailedText(s, e.e, e.t), << <<e.failed # "", "error-unnoticed">>, <<Unsent(e.t) \/ e.failed = "tex", "error-kind">> >>)
              ELSE LET n == Texted(s, e.e, e.t)
                       x == n.boxes[Len(n.boxes)]
                   IN Clauses(n, << <<e.failed = "", "text-failed">>,
                                    <<e.failed = "" => Near(e.ext[1], e.t.scale * Left(x.b, e.t.halign4)) /\ Near(e.ext[2], e.t.scale * Right(x.b, e.t.halign4)), "width">>,
                                    <<e.failed = "" => Near(e.ext[3], e.t.scale * x.b.h) /\ Near(e.ext[4], e.t.scale * x.b.d), "height">>,
                                    <<e.failed = "" => SameBox(e.bbox, Corners(x)), "bbox">> >>)
    [] e.k = "transform" -> LET n == [s EXCEPT !.boxes[e.b].post = @ \o e.maps] IN
         Clauses(n, << <<e.failed = "", "transform-failed">>, <<SameBox(e.bbox, Corners(n.boxes[e.b])), "transformed-bbox">> >>)
    [] e.k = "marker" -> LET x == s.boxes[e.b]
                             ms == {i \in DOMAIN x.b.marks : x.b.marks[i][1] = e.name} IN
         Clauses(Shown(s, <<e.b>>), << <<ms # {} => e.failed = "", "marker-failed">>, <<ms = {} => e.failed # "", "no-marker">>,
                                       <<(ms # {} /\ e.failed = "") => \E i \in ms : LET p == Place(x, <<x.b.marks[i][2], x.b.marks[i][3]>>) IN Near(e.pos[1], p[1]) /\ Near(e.pos[2], p[2]), "marker">> >>)
    [] OTHER -> \* several texts are shown
         LET want == AllPaints(s, e.bs, e.maps, 1) IN
         Clauses(Shown(s, e.bs), << <<e.failed = "", "output-failed">>,
                                    <<Len(e.paints) = Len(want), "material-count">>,
                                    <<Len(e.paints) = Len(want) => \A i \in DOMAIN want : SamePaint(e.paints[i], want[i]), "material">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = [engs |-> <<>>, insts |-> <<>>, boxes |-> <<>>] /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
