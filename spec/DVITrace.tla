------------------------------ MODULE DVITrace ------------------------------
(* One trace per DVI file: its fonts (env), its commands in order, and what was painted for every page.      *)
EXTENDS TraceLib, DVI
VARIABLES tid, l, st, err
S0 == [env |-> <<>>, p |-> Page0(<<>>), on |-> FALSE, pages |-> 0]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == a - b <= t /\ b - a <= t
\* the run g (characters set one after the other at g.x, g.y under the map g.m) as single characters
Chars(env, g) ==
  IF g.k # "c" THEN <<g>>
  ELSE LET f == [id |-> g.font, z |-> g.z] IN
       [i \in DOMAIN g.codes |-> [g EXCEPT !.x = g.x + Sum([j \in 1..i - 1 |-> Width(env, f, g.codes[j])]), !.c = g.codes[i]]]
RECURSIVE Flat(_, _)
Flat(env, gs) == IF gs = <<>> THEN <<>> ELSE Chars(env, Head(gs)) \o Flat(env, Tail(gs))
Size(m) == 1 + Abs(m[1]) + Abs(m[2]) + Abs(m[3]) + Abs(m[4])
\* a recorded item lies where the machine puts it (device coordinates in DVI units)
SameItem(e, g) ==
  LET t == (1 + (IF e.k # "c" THEN Abs(g.x) \div 100000 + Abs(g.y) \div 100000 + g.w \div 50000 + g.h \div 50000 ELSE 0)) * Size(e.m) IN
  /\ e.k = g.k /\ e.color = g.color
  \* an included graphics fills its device box
  /\ IF e.k = "e" THEN
       LET X == {MapX(e.m, e.x, e.y), MapX(e.m, e.x + e.w, e.y + e.h)} Y == {MapY(e.m, e.x, e.y), MapY(e.m, e.x + e.w, e.y + e.h)} IN
       /\ \A v \in X : v >= g.x - t /\ v <= g.x + g.w + t /\ (Near(v, g.x, t) \/ Near(v, g.x + g.w, t))
       /\ \A v \in Y : v >= g.y - t /\ v <= g.y + g.h + t /\ (Near(v, g.y, t) \/ Near(v, g.y + g.h, t))
       /\ \E v, u \in X : Near(u - v, g.w, t)
       /\ \E v, u \in Y : Near(u - v, g.h, t)
     ELSE
       /\ \A i \in 1..4 : e.m[i] = g.m[i]
       /\ Near(MapX(e.m, e.x, e.y), g.m[1] * g.x + g.m[2] * g.y + g.m[5], t) /\ Near(MapY(e.m, e.x, e.y), g.m[3] * g.x + g.m[4] * g.y + g.m[6], t)
       /\ IF e.k = "c" THEN e.font = g.font /\ Near(e.z, g.z, 1) /\ e.c = g.c ELSE Near(e.w, g.w, t) /\ Near(e.h, g.h, t)
Diff(E, gs) == IF Len(E) # Len(gs) THEN "painted-count" ELSE IF \A i \in DOMAIN E : SameItem(E[i], gs[i]) THEN "" ELSE "painted"
TStep(s, e) ==
  CASE e.k = "env" -> Ok([s EXCEPT !.env = e.fonts])
    [] e.k = "bop" -> Clauses([s EXCEPT !.p = Page0(s.p.fonts), !.on = TRUE], << <<~s.on, "generator">> >>)
    [] e.k = "cmd" -> IF ~(s.on \/ e.c[1] \in {"nop", "fntdef"}) \/ ~Legal(s.env, s.p, e.c) THEN Bad(s, "generator") ELSE Ok([s EXCEPT !.p = Step(s.env, s.p, e.c)])
    [] e.k = "eop" ->
         IF e.failed # "" THEN Bad(s, "refused")
         ELSE IF \E i \in DOMAIN e.got : e.got[i].k = "c" /\ (~(\E j \in DOMAIN s.env : s.env[j].id = e.got[i].font) \/ \E n \in DOMAIN e.got[i].codes : ~HasKey(Font(s.env, e.got[i].font).widths, e.got[i].codes[n])) THEN Bad(s, "unknown-character")
         ELSE LET d == Diff(s.p.out, Flat(s.env, e.got)) IN
           Clauses([s EXCEPT !.on = FALSE, !.pages = @ + 1], << <<d = "", d>>, <<~e.single \/ \A i \in DOMAIN e.got : Len(e.got[i].codes) < 2, "single-characters">>,
             <<Len(e.marks) = Len(s.p.marks) /\ \A i \in DOMAIN s.p.marks : \E j \in DOMAIN e.marks : e.marks[j][1] = s.p.marks[i][1] /\ Near(e.marks[j][2], s.p.marks[i][2], 3) /\ Near(e.marks[j][3], s.p.marks[i][3], 3), "markers">> >>)
    [] e.k = "post" -> Clauses(s, << <<e.nothing, "page-after-last">>, <<e.wrongid, "wrong-page-accepted">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = S0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
