------------------------------ MODULE TextEngine ------------------------------
(* Text engines: a process of TeX starts with the first use, executes preambles until the first text, typesets texts, and is *)
(* finished as soon as any of its texts is shown. Engines which may restart do so for the next text, repeating the preambles *)
(* given since they were created or reset. State: [engs, insts, boxes]:                                                       *)
(*  engs: id -> [cur, pre, multi]; insts: sequence of [st, macros]; boxes: sequence of [inst, b, t, post]                      *)
EXTENDS TextBox, FiniteSets
Fresh == [st |-> "start", macros |-> <<>>]
RECURSIVE Defined(_, _), Define(_, _)
Put1(macros, m) == [n \in DOMAIN macros \cup {m.name} |-> IF n = m.name THEN [w |-> m.w, h |-> m.h, d |-> m.d] ELSE macros[n]]
Define(macros, ms) == IF ms = <<>> THEN macros ELSE Define(Put1(macros, ms[1]), Tail(ms))
Defined(pre, macros) == IF pre = <<>> THEN macros ELSE Defined(Tail(pre), Define(macros, pre[1]))
\* what makes a text fail: an error message of TeX, an unhandled message, or a text which can not be sent at all
Unsent(t) == t.bad \in {"encoding", "attribute"}
Items(t) == Cat(t.lines)
Refused(t, macros) == \E i \in DOMAIN Items(t) : LET x == Items(t)[i] IN x.k = "undefined" \/ (x.k = "message" /\ ~t.accepts) \/ (x.k = "macro" /\ x.name \notin DOMAIN macros)
Fails(t, macros) == t.bad # "" \/ Refused(t, macros)
\* the process which gets the next text of an engine
Current(s, e) == s.insts[s.engs[e].cur]
Restarts(s, e) == s.engs[e].multi /\ Current(s, e).st \in {"done", "unclear-done"}
Prepared(s, e) == IF Restarts(s, e) THEN [s EXCEPT !.insts = Append(@, [st |-> "start", macros |-> Defined(s.engs[e].pre, <<>>)]), !.engs[e].cur = Len(s.insts) + 1] ELSE s
State(s, e, st) == [s EXCEPT !.insts[s.engs[e].cur].st = st]
New(s, multi) == [s EXCEPT !.insts = Append(@, Fresh), !.engs = Append(@, [cur |-> Len(s.insts) + 1, pre |-> <<>>, multi |-> multi])]
Reset(s, e) == [s EXCEPT !.insts = Append(@, Fresh), !.engs[e].cur = Len(s.insts) + 1, !.engs[e].pre = <<>>]
Preambled(s, e, defs) == LET p == Prepared(s, e) IN
  [p EXCEPT !.engs[e].pre = Append(@, defs), !.insts[p.engs[e].cur] = [st |-> "start", macros |-> Define(@.macros, defs)]]
FailedText(s, e, t) == LET p == Prepared(s, e) IN
  IF ~Unsent(t) THEN State(p, e, "typeset")
  ELSE LET st == Current(s, e).st IN State(s, e, CASE st = "start" -> "unclear" [] st = "done" -> (IF s.engs[e].multi THEN "unclear-done" ELSE "done") [] OTHER -> st)
Texted(s, e, t) == LET p == State(Prepared(s, e), e, "typeset") IN
  [p EXCEPT !.boxes = Append(@, [inst |-> p.engs[e].cur, b |-> Text(t, Current(p, e).macros), t |-> t, post |-> <<>>])]
Shown(s, bs) == [s EXCEPT !.insts = [i \in DOMAIN @ |-> IF \E k \in DOMAIN bs : s.boxes[bs[k]].inst = i THEN [@[i] EXCEPT !.st = "done"] ELSE @[i]]]
\* where a point of a text box (relative to the reference point) is
Place(x, p) == LET c == <<x.t.x, x.t.y>>
                   q == AroundAll(x.t.trafos, c, <<c[1] + x.t.scale * (p[1] - Left(x.b, x.t.halign4)), c[2] + x.t.scale * p[2]>>)
               IN ApplyAll(x.post, q)
\* a text shown is all its rules and nothing else, in its colour
Paints(x, map) == [i \in DOMAIN x.b.rules |-> LET p == Apply(map, Place(x, <<x.b.rules[i][1], x.b.rules[i][2]>>))
                                                  q == Apply(map, Place(x, <<x.b.rules[i][3], x.b.rules[i][4]>>))
                                              IN <<x.t.color, {p[1], q[1]}, {p[2], q[2]}>>]
Corners(x) == {Place(x, <<i, j>>) : i \in {0, x.b.w}, j \in {-x.b.d, x.b.h}}
=============================================================================
