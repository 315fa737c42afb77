-------------------------------- MODULE T1MC --------------------------------
(* F01: all glyph programs of at most Depth pieces (Pieces) behind each of the ways to begin one, executed by the charstring machine. *)
EXTENDS T1, Json
CONSTANTS Depth, Pieces, Begins
VARIABLES prog, st, k
vars == <<prog, st, k>>
n(i) == <<"n", i>>
o(c) == <<c, 0>>
Font == [subrs |-> <<
    <<n(3), n(0), o("callothersubr"), o("pop"), o("pop"), o("setcurrentpoint"), o("return")>>,   \* 0-3: flex and hint replacement
    <<n(0), n(1), o("callothersubr"), o("return")>>, <<n(0), n(2), o("callothersubr"), o("return")>>, <<o("return")>>,
    <<n(10), n(20), o("hstem"), n(5), n(7), o("vstem"), o("return")>>,                            \* 4: hints
    <<n(30), o("hlineto"), o("return")>>,                                                         \* 5
    <<n(5), o("callsubr"), n(-20), n(15), o("rlineto"), o("return")>>,                            \* 6: nested
    <<o("rlineto"), o("return")>>,                                                                \* 7: operands of its caller
    <<n(6), o("return")>>,                                                                        \* 8: result for its caller
    <<n(8), o("callsubr"), o("callsubr"), o("return")>>,                                          \* 9: calls what 8 tells
    <<n(1), o("callsubr"), n(10), n(40), o("rmoveto"), n(2), o("callsubr"), n(-5), n(-35), o("rmoveto"), n(2), o("callsubr"), n(5), n(-3), o("rmoveto"), n(2), o("callsubr"), o("return")>>, \* 10: part of a flex
    <<n(7), n(1), n(3), o("callothersubr"), o("pop"), o("callsubr"), o("return")>>,               \* 11: calls by hint replacement with operands below
    <<n(3), o("return")>> >>,                                                                     \* 12: not used
  glyphs |-> [g \in {65, 97, 194, 200, 202} |->
    CASE g = 65 -> <<n(20), n(500), o("hsbw"), n(50), o("hmoveto"), n(100), o("hlineto"), n(6), o("callsubr"), o("closepath"), o("endchar")>>
      [] g = 97 -> <<n(-30), n(450), o("hsbw"), n(10), n(10), o("rmoveto"), n(20), n(30), n(40), n(50), o("hvcurveto"), o("closepath"), o("endchar")>>
      [] g = 194 -> <<n(70), n(333), o("hsbw"), n(400), o("vmoveto"), n(40), n(60), o("rlineto"), n(5), o("callsubr"), o("closepath"), o("endchar")>>
      [] g = 200 -> <<n(0), n(333), o("hsbw"), n(10), n(500), o("rmoveto"), n(25), n(2), o("div"), o("hlineto"), n(9), o("callsubr"), o("closepath"), o("endchar")>>
      [] OTHER -> <<n(60), n(0), n(300), n(0), o("sbw"), n(10), n(500), o("rmoveto"), n(25), o("vlineto"), n(25), o("hlineto"), o("closepath"), n(15), o("hmoveto"), n(9), o("vlineto"), n(9), o("hlineto"), o("closepath"), o("endchar")>>]]
Begin == [hsbw |-> <<n(40), n(600), o("hsbw")>>, div |-> <<n(25), n(2), o("div"), n(1251), n(2), o("div"), o("hsbw")>>, sbw |-> <<n(-15), n(30), n(1132), n(200), o("sbw")>>,
          subr |-> <<n(110), n(2000), o("hsbw"), n(4), o("callsubr")>>]
R == [rmoveto |-> <<n(30), n(-70), o("rmoveto")>>, hmoveto |-> <<n(-108), o("hmoveto")>>, vmoveto |-> <<n(1131), o("vmoveto")>>,
      rlineto |-> <<n(-1132), n(107), o("rlineto")>>, hlineto |-> <<n(108), o("hlineto")>>, vlineto |-> <<n(-107), o("vlineto")>>,
      rrcurveto |-> <<n(10), n(-20), n(30), n(40), n(-50), n(63), o("rrcurveto")>>, hvcurveto |-> <<n(11), n(22), n(-33), n(44), o("hvcurveto")>>, vhcurveto |-> <<n(-11), n(23), n(35), n(44), o("vhcurveto")>>,
      close |-> <<o("closepath"), n(21), n(22), o("rmoveto")>>, closehere |-> <<n(9), o("vlineto"), o("closepath")>>,
      hints |-> <<n(-20), n(20), o("hstem"), n(1), n(2), n(3), n(4), n(5), n(6), o("vstem3"), o("dotsection"), n(1), n(2), n(3), n(4), n(5), n(6), o("hstem3")>>,
      replace |-> <<n(4), n(1), n(3), o("callothersubr"), o("pop"), o("callsubr")>>,
      counter |-> <<n(2), n(10), n(20), n(3), n(12), o("callothersubr"), n(5), n(1), n(13), o("callothersubr")>>,
      fracline |-> <<n(25), n(2), o("div"), n(-7), n(4), o("div"), o("rlineto")>>, fracmove |-> <<n(-331), n(10), o("div"), o("vmoveto")>>,
      sub |-> <<n(6), o("callsubr")>>, args |-> <<n(12), n(-13), n(7), o("callsubr")>>, computed |-> <<n(9), o("callsubr")>>, below |-> <<n(31), n(32), n(11), o("callsubr")>>,
      belowdiv |-> <<n(31), n(16), n(2), o("div"), n(7), o("callsubr")>>,
      flex |-> <<n(10), o("callsubr"), n(20), n(6), o("rmoveto"), n(2), o("callsubr"), n(21), n(-7), o("rmoveto"), n(2), o("callsubr"), n(4), n(-5), o("rmoveto"), n(2), o("callsubr"),
                 n(5), n(1), o("rmoveto"), n(2), o("callsubr"), n(50)>>,
      drop |-> <<o("endchar")>>]
\* the flex subroutine wants the absolute end point
Piece(s, p) == IF p # "flex" THEN R[p]
   ELSE LET t == Run(Font, s, R.flex) IN R.flex \o (IF t.x[2] = 1 THEN <<n(t.x[1])>> ELSE <<n(t.x[1]), n(t.x[2]), o("div")>>)
          \o (IF t.y[2] = 1 THEN <<n(t.y[1])>> ELSE <<n(t.y[1]), n(t.y[2]), o("div")>>) \o <<n(0), o("callsubr")>>
Ends == [close |-> <<o("closepath"), o("endchar")>>, plain |-> <<o("endchar")>>]
Seacs == {<<n(a), n(x), n(y), n(b), n(c), o("seac")>> : a \in {70, -12}, x \in {0, 130}, y \in {0, -55}, b \in {65, 97}, c \in {194, 200, 202}}
Init == prog = <<>> /\ st = Start /\ k = 0
Do(c) == prog' = prog \o c /\ st' = Run(Font, st, c)
Next == /\ k <= Depth + 1 /\ ~st.end
        /\ \/ k = 0 /\ \E b \in Begins : Do(Begin[b]) /\ k' = 1
           \/ k >= 1 /\ k <= Depth /\ \E p \in Pieces : Do(Piece(st, p)) /\ k' = k + 1
           \/ k = 1 /\ \E c \in Seacs : Do(c) /\ k' = k
           \/ k = Depth + 1 /\ \E e \in DOMAIN Ends : Do(Ends[e]) /\ k' = k
Spec == Init /\ [][Next]_vars
NoError == st.err = ""
\* the pen only ever moves by what the commands say: an outline ends where the machine is, unless moved since
EndsHere == st.pen /\ st.out # <<>> /\ Top(st.out).segs # <<>> => Top(Top(Top(st.out).segs)) = <<st.x, st.y>>
Clean == st.end => st.stk = <<>> /\ st.ps = <<>> /\ ~st.flexing
Emit == /\ k = 0 => PrintT("@" \o ToJson([font |-> [subrs |-> Font.subrs, glyphs |-> [i \in 1..5 |-> LET g == <<65, 97, 194, 200, 202>>[i] IN [code |-> g, cmds |-> Font.glyphs[g]]]]]))
        /\ st.end => PrintT("@" \o ToJson([prog |-> prog, out |-> Outline(st), w |-> st.w, subrs |-> st.subrs, glyphs |-> st.glyphs]))
=============================================================================
