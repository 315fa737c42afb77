------------------------------- MODULE PathMC -------------------------------
(* All sequences of path elements over a library of elements. *)
EXTENDS PathBuild, TLC, Json
CONSTANT MaxLen, From
E(o, a, r, n) == [o |-> o, a |-> a, r |-> r, n |-> n]
Lib == << E("M", <<<<0, 0>>>>, 0, <<>>), E("M", <<<<8, 4>>>>, 0, <<>>), E("arc", <<<<4, 4>>>>, 4, <<0, 1>>), E("arcn", <<<<0, 4>>>>, 8, <<4, 0>>),
          E("L", <<<<8, 0>>>>, 0, <<>>), E("l", <<<<-4, 8>>>>, 0, <<>>), E("l", <<<<0, 0>>>>, 0, <<>>), E("m", <<<<4, 4>>>>, 0, <<>>),
          E("C", <<<<0, 12>>, <<12, 20>>, <<16, 4>>>>, 0, <<>>), E("c", <<<<0, 4>>, <<4, 8>>, <<8, 8>>>>, 0, <<>>), E("Z", <<>>, 0, <<>>),
          E("arc", <<<<0, 0>>>>, 4, <<3, -2>>), E("arcn", <<<<8, 4>>>>, 4, <<1, 2>>), E("arct", <<<<16, 0>>, <<16, 8>>>>, 4, <<>>),
          E("arct", <<<<0, 12>>, <<0, 0>>>>, 2, <<>>), E("ml", <<<<8, 8>>, <<0, 8>>>>, 0, <<>>), E("arc", <<<<8, 8>>>>, 4, <<1, 5>>),
          E("mc", <<<<4, 0>>, <<6, 6>>, <<8, 8>>, <<8, 12>>, <<12, 16>>, <<16, 16>>>>, 0, <<>>) >>
VARIABLES es, s
Init == es = <<>> /\ s = Empty
\* a closepath needs a subpath with extent; after it a path element must not use the current point
Allowed(e) == /\ (e.o = "Z" => s.open /\ s.cur # <<>>)
              /\ (~s.open /\ s.cp # <<>>) => e.o \in {"M", "arc", "arcn"}
              /\ (e.o = "arct" /\ s.cp # <<>>) => ArctOk(s.cp, e.a[1], e.a[2])
Next == /\ Len(es) < MaxLen
        /\ s.ok
        /\ \E i \in From..Len(Lib) : /\ (es = <<>> => i <= 18)
                                     /\ Allowed(Lib[i])
                                     /\ es' = Append(es, Lib[i])
                                     /\ s' = Build(s, Lib[i])
Connected == s.ok => \A i \in DOMAIN s.done : s.done[i].z /\ s.done[i].g # <<>> => End(s.done[i].g[Len(s.done[i].g)]) = s.done[i].s
CurrentPoint == s.open /\ s.cur # <<>> => s.cp = LastPoint(s)
Refused == ~s.ok <=> (es # <<>> /\ Needs(es[1]))
Emit == (es # <<>>) => PrintT("@" \o ToJson(es))
=============================================================================
