-------------------------------- MODULE PSDoc --------------------------------
(* PostScript documents: document structure comments, and a PostScript machine which knows operand kinds,  *)
(* graphics-state nesting, the current path, the definitions and the fonts.                                *)
EXTENDS Integers, Sequences, FiniteSets
ToSet(s) == {s[i] : i \in DOMAIN s}
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* ---- operators: operand kinds (bottom to top) and results ----------------------------------------------
\* n number, s string, x literal name, a array, d dictionary, p procedure, f file, v save object, "*" anything
Nn(k) == [i \in 1..k |-> "n"]
Op(i, o) == [in |-> i, out |-> o]
Ops == [moveto |-> Op(Nn(2), <<>>), lineto |-> Op(Nn(2), <<>>), rmoveto |-> Op(Nn(2), <<>>), rlineto |-> Op(Nn(2), <<>>),
        curveto |-> Op(Nn(6), <<>>), rcurveto |-> Op(Nn(6), <<>>), arc |-> Op(Nn(5), <<>>), arcn |-> Op(Nn(5), <<>>), arct |-> Op(Nn(5), <<>>),
        closepath |-> Op(<<>>, <<>>), newpath |-> Op(<<>>, <<>>), stroke |-> Op(<<>>, <<>>), fill |-> Op(<<>>, <<>>), eofill |-> Op(<<>>, <<>>),
        clip |-> Op(<<>>, <<>>), eoclip |-> Op(<<>>, <<>>), rectclip |-> Op(Nn(4), <<>>), gsave |-> Op(<<>>, <<>>), grestore |-> Op(<<>>, <<>>), showpage |-> Op(<<>>, <<>>),
        setlinewidth |-> Op(Nn(1), <<>>), setlinecap |-> Op(Nn(1), <<>>), setlinejoin |-> Op(Nn(1), <<>>), setmiterlimit |-> Op(Nn(1), <<>>), setdash |-> Op(<<"a", "n">>, <<>>),
        setgray |-> Op(Nn(1), <<>>), setrgbcolor |-> Op(Nn(3), <<>>), sethsbcolor |-> Op(Nn(3), <<>>), setcmykcolor |-> Op(Nn(4), <<>>), setcolorspace |-> Op(<<"xa">>, <<>>),
        concat |-> Op(<<"a">>, <<>>), translate |-> Op(Nn(2), <<>>), scale |-> Op(Nn(2), <<>>), rotate |-> Op(Nn(1), <<>>), matrix |-> Op(<<>>, <<"a">>),
        image |-> Op(<<"d">>, <<>>), shfill |-> Op(<<"d">>, <<>>), setpattern |-> Op(<<"d">>, <<>>), makepattern |-> Op(<<"d", "a">>, <<"d">>),
        selectfont |-> Op(<<"x", "n">>, <<>>), show |-> Op(<<"s">>, <<>>), currentfile |-> Op(<<>>, <<"f">>), filter |-> Op(<<"fsp", "x">>, <<"f">>),
        load |-> Op(<<"x">>, <<"*">>), store |-> Op(<<"x", "*">>, <<>>), def |-> Op(<<"x", "*">>, <<>>), bind |-> Op(<<"p">>, <<"p">>), save |-> Op(<<>>, <<"v">>), restore |-> Op(<<"v">>, <<>>),
        begin |-> Op(<<"d">>, <<>>), end |-> Op(<<>>, <<>>), exch |-> Op(<<"*", "*">>, <<>>), dot_setshapealpha |-> Op(Nn(1), <<>>),
        ReEncodeFont |-> Op(<<"x", "x", "a">>, <<>>), ChangeFontMatrix |-> Op(<<"x", "x", "a">>, <<>>), BeginEPSF |-> Op(<<>>, <<>>), EndEPSF |-> Op(<<>>, <<>>)]
Procedures == {"ReEncodeFont", "ChangeFontMatrix", "BeginEPSF", "EndEPSF"}
Fits(k, want) == CASE want = "*" -> k # "m" [] want = "xa" -> k \in {"x", "a"} [] want = "fsp" -> k \in {"f", "s", "p", "a"} [] OTHER -> k = want
\* the operands in place: the top of the stack (above the innermost mark) fits
Operands(stk, o) == LET m == Ops[o].in IN Len(stk) >= Len(m) /\ \A i \in DOMAIN m : Fits(stk[Len(stk) - Len(m) + i][1], m[i])
Args(stk, o) == SubSeq(stk, Len(stk) - Len(Ops[o].in) + 1, Len(stk))
Rest(stk, o) == SubSeq(stk, 1, Len(stk) - Len(Ops[o].in))
\* ---- the machine -----------------------------------------------------------------------------------------
G0 == [path |-> FALSE, sub |-> FALSE, font |-> ""]
M0 == [stk |-> <<>>, gs |-> <<>>, g |-> G0, data |-> FALSE, shown |-> <<>>, images |-> <<>>, patterns |-> <<>>, meshes |-> <<>>]
Frame(stk) == [M0 EXCEPT !.stk = stk]
KindOf(defs, n) == IF \E d \in defs : d[1] = n THEN (CHOOSE d \in defs : d[1] = n)[2] ELSE ""
\* position of the innermost mark of the given sort (0 if none)
MarkAt(stk, w) == LET S == {i \in DOMAIN stk : stk[i][1] = "m"} IN IF S = {} THEN 0 ELSE LET t == CHOOSE i \in S : \A j \in S : j <= i IN IF stk[t][2] = w THEN t ELSE 0
NeedsPoint == {"lineto", "rlineto", "rmoveto", "curveto", "rcurveto", "arct", "closepath", "show"}
Painting == {"stroke", "fill", "eofill", "clip", "eoclip"}
\* reasons why the operator is illegal here (m: machine after pushing the operands, defs: <<name, kind>>, fonts: names)
OpReason(m, defs, fonts, op) ==
  IF op \in {"[", "<<"} THEN ""
  ELSE IF op \in {"]", ">>"} THEN
     LET t == MarkAt(m.stk, IF op = "]" THEN "[" ELSE "<<") IN
       IF t = 0 THEN "unmatched-bracket"
       ELSE IF op = ">>" /\ ((Len(m.stk) - t) % 2 # 0 \/ \E i \in t + 1..Len(m.stk) : (i - t) % 2 = 1 /\ m.stk[i][1] # "x") THEN "malformed-dictionary" ELSE ""
  ELSE IF op \notin DOMAIN Ops THEN IF KindOf(defs, op) = "" THEN "undefined-name" ELSE IF KindOf(defs, op) = "p" THEN "unknown-procedure" ELSE ""
  ELSE IF op \in Procedures /\ KindOf(defs, op) # "p" THEN "undefined-procedure"
  ELSE IF ~Operands(m.stk, op) THEN "operands"
  ELSE IF op = "grestore" /\ m.gs = <<>> THEN "grestore-without-gsave"
  ELSE IF op \in NeedsPoint /\ ~m.g.path THEN "no-current-point"
  ELSE IF op \in Painting /\ ~m.g.path THEN "paints-nothing"
  ELSE IF op = "load" /\ KindOf(defs, Last(m.stk)[2]) = "" THEN "load-of-undefined-name"
  ELSE IF op = "selectfont" /\ Args(m.stk, op)[1][2] \notin fonts THEN "undefined-font"
  ELSE IF op = "show" /\ m.g.font = "" THEN "show-without-font"
  ELSE IF op \in {"ReEncodeFont", "ChangeFontMatrix"} /\ Args(m.stk, op)[1][2] \notin fonts THEN "undefined-base-font"
  ELSE IF op \in {"ReEncodeFont", "ChangeFontMatrix"} /\ Args(m.stk, op)[2][2] \in fonts THEN "font-defined-twice"
  ELSE IF op = "def" /\ KindOf(defs, Args(m.stk, op)[1][2]) # "" THEN "name-defined-twice"
  ELSE IF op = "currentfile" /\ m.data THEN "data-source-twice"
  ELSE ""
Exec(m, defs, op) ==
  IF op \in {"[", "<<"} THEN [m EXCEPT !.stk = Append(@, <<"m", op>>)]
  ELSE IF op = "]" THEN [m EXCEPT !.stk = Append(SubSeq(@, 1, MarkAt(@, "[") - 1), <<"a", "">>)]
  ELSE IF op = ">>" THEN [m EXCEPT !.stk = Append(SubSeq(@, 1, MarkAt(@, "<<") - 1), <<"d", "">>)]
  ELSE IF op \notin DOMAIN Ops THEN [m EXCEPT !.stk = Append(@, <<KindOf(defs, op), op>>)]
  ELSE
    LET a == Args(m.stk, op)
        r == Rest(m.stk, op)
        m1 == [m EXCEPT !.stk = r \o [i \in DOMAIN Ops[op].out |-> <<Ops[op].out[i], "">>]]
    IN CASE op = "gsave" -> [m1 EXCEPT !.gs = Append(@, m.g)]
         [] op = "grestore" -> [m1 EXCEPT !.gs = Front(@), !.g = Last(m.gs)]
         [] op \in {"moveto"} -> [m1 EXCEPT !.g.path = TRUE]
         [] op \in {"newpath", "stroke", "fill", "eofill"} -> [m1 EXCEPT !.g.path = FALSE]
         [] op = "selectfont" -> [m1 EXCEPT !.g.font = a[1][2]]
         [] op = "load" -> [m1 EXCEPT !.stk = Append(r, <<KindOf(defs, a[1][2]), "">>)]
         [] op = "exch" -> [m1 EXCEPT !.stk = r \o <<a[2], a[1]>>]
         [] op = "currentfile" -> [m1 EXCEPT !.data = TRUE]
         [] OTHER -> m1
\* a program is complete: nothing left behind
Balanced(m) == m.stk = <<>> /\ m.gs = <<>> /\ ~m.data
=============================================================================
