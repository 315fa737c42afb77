--------------------------------- MODULE DVIMC ---------------------------------
(* All short DVI programs over a small alphabet: one plain font, one virtual font, every kind of command.    *)
EXTENDS DVI, TLC, Json
CONSTANTS N, Alphabet
Env == << [id |-> "vta", kind |-> "tfm", widths |-> << <<65, 524288>>, <<66, 349525>> >>, packets |-> <<>>, locals |-> <<>>],
          [id |-> "vtv", kind |-> "vf", widths |-> << <<65, 786432>>, <<66, 262144>> >>,
           packets |-> << <<65, << <<"push">>, <<"set", 65>>, <<"w", 4096>>, <<"w0">>, <<"pop">>, <<"down", 40960>>, <<"set", 66>> >> >>,
                          <<66, << <<"fnt", 5>>, <<"color", "rgb 0 0 1">>, <<"set", 66>>, <<"endgroup">>, <<"right", -8192>>, <<"setrule", 81920, 409600>>, <<"put", 65>>, <<"z0">>, <<"x0">>, <<"set", 65>> >> >> >>,
           locals |-> << <<7, "vta", 1048576>>, <<5, "vta", 524288>> >>] >>
Moving == { <<"set", 65>>, <<"put", 66>>, <<"setrule", 65536, 131072>>, <<"putrule", 65536, 65536>>, <<"setrule", 0, 65536>>, <<"right", 196608>>, <<"w", 65536>>, <<"w0">>, <<"x", 32768>>, <<"x0">>,
            <<"down", 131072>>, <<"y", 65536>>, <<"y0">>, <<"z", -32768>>, <<"z0">>, <<"push">>, <<"pop">>, <<"nop">>, <<"fnt", 2>> }
Virtual == { <<"set", 65>>, <<"set", 66>>, <<"put", 65>>, <<"put", 66>>, <<"fnt", 2>>, <<"fnt", 3>>, <<"push">>, <<"pop">>, <<"w", 65536>>, <<"w0">>, <<"down", 131072>>, <<"z0">>, <<"putrule", 65536, 65536>> }
Special == { <<"set", 65>>, <<"color", "rgb 1 0 0">>, <<"color", "gray 0.5">>, <<"rotate", 1>>, <<"scale", 2, 1>>, <<"scale", -1, 1>>, <<"endgroup">>, <<"marker", "m">>, <<"special", "x">>, <<"right", 196608>>, <<"down", 131072>>,
             <<"push">>, <<"pop">>, <<"fnt", 3>> }
Cmds == CASE Alphabet = "moving" -> Moving [] Alphabet = "virtual" -> Virtual [] OTHER -> Special
Fonts == << <<2, "vta", 655360>>, <<3, "vtv", 327680>> >>
Start == Step(Env, Page0(Fonts), <<"fnt", 2>>)
VARIABLES prog, st
Init == prog = <<>> /\ st = Start
Next == \E c \in Cmds : Len(prog) < N /\ Legal(Env, st, c) /\ prog' = Append(prog, c) /\ st' = Step(Env, st, c)
\* ---- laws of the machine --------------------------------------------------------------------------------
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
IsPush(c) == c[1] = "push"
IsPop(c) == c[1] = "pop"
Opens(c) == c[1] \in {"color", "rotate", "scale"}
Closes(c) == c[1] = "endgroup"
Sound ==
  /\ Len(st.stack) = Count(prog, IsPush) - Count(prog, IsPop)
  /\ Len(st.groups) = 1 + Count(prog, Opens) - Count(prog, Closes)
  /\ st.scale = 0
  \* a command which is bracketed by push and pop leaves the registers alone; a put command always does
  /\ \A c \in Cmds : Legal(Env, st, c) =>
       /\ (c[1] \notin {"push", "pop"}) => Step(Env, Step(Env, Step(Env, st, <<"push">>), c), <<"pop">>).r = st.r
       /\ (c[1] \in {"put", "putrule", "nop", "special", "marker", "fnt", "color", "rotate", "scale", "endgroup"}) => Step(Env, st, c).r = st.r
  \* vertical and horizontal motions do not mix
  /\ \A c \in Cmds : Legal(Env, st, c) /\ c[1] \in {"right", "w", "x", "w0", "x0", "set", "setrule"} => Step(Env, st, c).r.v = st.r.v
  \* drawing never changes what is there already
  /\ \A c \in Cmds : Legal(Env, st, c) => SubSeq(Step(Env, st, c).out, 1, Len(st.out)) = st.out
  \* a character of the virtual font shows the same in whatever registers it is set, shifted
  /\ \A c \in {65, 66} : LET a == Step(Env, [st EXCEPT !.f = [id |-> "vtv", z |-> 327680], !.out = <<>>], <<"set", c>>)
                             b == Step(Env, [Start EXCEPT !.f = [id |-> "vtv", z |-> 327680], !.groups = st.groups], <<"set", c>>)
                         IN /\ Len(a.out) = Len(b.out) /\ a.groups = st.groups
                            /\ \A i \in DOMAIN a.out : a.out[i].x - b.out[i].x = st.r.h /\ b.out[i].y - a.out[i].y = st.r.v
Emit == Len(prog) = N => PrintT("@" \o ToJson(prog))
=============================================================================
