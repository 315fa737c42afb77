------------------------------ MODULE SVGPathMC ------------------------------
(* All short path data. *)
EXTENDS SVGPath, TLC, Json
CONSTANTS MaxLen, Arcs
K(c, a) == {[c |-> c, rel |-> r, a |-> a] : r \in BOOLEAN}
ArcSet == {[rx |-> 25, ry |-> 25, phi |-> <<5, 0>>, i |-> 0, j |-> 3, sw |-> TRUE], [rx |-> 25, ry |-> 50, phi |-> <<4, 3>>, i |-> 10, j |-> 2, sw |-> FALSE],
           [rx |-> 75, ry |-> 25, phi |-> <<4, 3>>, i |-> 1, j |-> 4, sw |-> TRUE], [rx |-> 50, ry |-> 25, phi |-> <<0, 5>>, i |-> 7, j |-> 5, sw |-> FALSE]}
MoreArcs == {a \in [rx : {25, 75}, ry : {25, 50}, phi : {<<5, 0>>, <<0, 5>>, <<4, 3>>}, i : 0..11, j : 0..11, sw : BOOLEAN] : a.i # a.j}
ArcCmds(s) == {[c |-> "A", rel |-> r, arc |-> a, a |-> <<>>] : r \in BOOLEAN, a \in s}
Letters == K("M", <<4, 60>>) \cup K("L", <<30, -10>>) \cup K("H", <<17>>) \cup K("V", <<23>>) \cup K("C", <<5, 20, 15, 30, 40, 10>>) \cup K("S", <<20, 5, 35, -15>>)
           \cup K("Q", <<10, 30, 25, 20>>) \cup K("T", <<-20, 15>>) \cup ArcCmds(ArcSet) \cup {[c |-> "Z", rel |-> FALSE, a |-> <<>>]}
First == [c |-> "M", rel |-> FALSE, a |-> <<100, 200>>]
\* the same command with absolute arguments
AbsCmd(s, k) ==
  LET ox == IF k.rel THEN s.cur[1] \div 6 ELSE 0
      oy == IF k.rel THEN s.cur[2] \div 6 ELSE 0
  IN [k EXCEPT !.rel = FALSE, !.a = CASE k.c = "H" -> <<k.a[1] + ox>>
                                     [] k.c = "V" -> <<k.a[1] + oy>>
                                     [] OTHER -> [i \in DOMAIN k.a |-> k.a[i] + (IF i % 2 = 1 THEN ox ELSE oy)]]
VARIABLES cmds, st, abs
Init == cmds = <<First>> /\ st = Cmd(Start, First) /\ abs = st
Step(k) == cmds' = Append(cmds, k) /\ st' = Cmd(st, k) /\ abs' = Cmd(abs, AbsCmd(st, k))
Next == \/ /\ Len(cmds) <= MaxLen
           /\ (Len(cmds) > 1 /\ cmds[2].c = "A") => cmds[2].arc \in ArcSet
           /\ \E k \in Letters : Step(k)
        \/ /\ Arcs /\ Len(cmds) = 1
           /\ \E k \in ArcCmds(MoreArcs) : Step(k)
\* the same path with absolute commands only
Relative == abs = st
\* exactly one item per command besides the begin of subpaths which continue a closed one
Items == Len(SelectSeq(st.geo, LAMBDA g : g[1] # "m")) = Len(SelectSeq(cmds, LAMBDA k : k.c # "M"))
\* arcs: the points given by the directions are on the ellipse, more than half of the ellipse is large
Arcing == cmds[Len(cmds)].c # "A" \/ LET a == cmds[Len(cmds)].arc IN Len(Via(a)) = Span(a) - 1 /\ (Large([a EXCEPT !.sw = ~@]) # Large(a) \/ Span(a) = 6)
Emit == Len(cmds) = 1 \/ PrintT("@" \o ToJson([cmds |-> [i \in DOMAIN cmds |-> IF cmds[i].c = "A" THEN [c |-> "A", rel |-> cmds[i].rel, a |-> <<cmds[i].arc.rx, cmds[i].arc.ry>> \o cmds[i].arc.phi
                                                        \o <<IF Large(cmds[i].arc) THEN 1 ELSE 0, IF cmds[i].arc.sw THEN 1 ELSE 0>> \o ArcEnd(cmds[i].arc) \o <<Span(cmds[i].arc)>>] ELSE cmds[i]],
                                                geo |-> st.geo]))
=============================================================================
