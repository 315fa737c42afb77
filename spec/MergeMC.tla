------------------------------ MODULE MergeMC ------------------------------
(* All attribute lists up to a length, over three groups of the attributes PyX defines. *)
EXTENDS Merge, FiniteSets, TLC, Json
CONSTANTS MaxLen, Group
A(is, drops, before) == [is |-> is, drops |-> drops, all |-> FALSE, before |-> before, stays |-> TRUE]
Clr(ks) == [is |-> {}, drops |-> ks, all |-> FALSE, before |-> {}, stays |-> FALSE]
ClrAll == [is |-> {}, drops |-> {}, all |-> TRUE, before |-> {}, stays |-> FALSE]
Excl(k) == A({k}, {k}, {})
Style == << A({"lw"}, {"lw"}, {"dash", "ls"}), A({"lw"}, {"lw"}, {"dash", "ls"}), Excl("dash"), Excl("ls"), Excl("cap"), Excl("cap"),
            Clr({"lw"}), Clr({"dash"}), ClrAll >>
Local(k) == {k, "local"}
Text == << A({"parbox"}, {"parbox"}, {"local"}), A({"parbox"}, {"parbox"}, {"local"}),
           A({"valign"}, {"valign"}, {"parbox", "local"}), A({"vshift"}, {}, {"valign", "parbox", "local"}),
           A({"size"}, {}, {"math", "vshift"}), A(Local("math"), {"math"}, {}), A(Local("phantom"), {}, {}),
           A(Local("boxhalign"), {"boxhalign"}, {}), A({"halign", "boxhalign", "flushhalign", "local"}, {"halign"}, {}),
           Clr({"valign"}), Clr({"parbox"}) >>
Deco == << Excl("stroked"), Excl("stroked"), Excl("filled"), Excl("filled"), A({"hatched"}, {"hatched", "filled"}, {}),
           A({"hatched"}, {"hatched", "filled"}, {}), A({"arrow"}, {}, {}), Excl("color"), A({"trafo"}, {}, {}),
           Clr({"stroked"}), Clr({"hatched"}), Clr({"arrow"}) >>
Tables == IF Group = "style" THEN Style ELSE IF Group = "text" THEN Text ELSE Deco
VARIABLE as
Init == as = <<>>
Next == Len(as) < MaxLen /\ \E i \in DOMAIN Tab : as' = Append(as, i)
\* merging part of a list first changes nothing (not so for text attributes: <<parbox, size, vshift>>)
Stepwise == Group # "text" => \A n \in 0..Len(as) : Onto(<<>>, Result(SubSeq(as, 1, n)) \o SubSeq(as, n + 1, Len(as))) = Result(as)
\* at most one attribute of an exclusive kind stays
OneOfAKind == LET r == Result(as) IN
              \A i, j \in DOMAIN r : (i # j /\ Tab[r[i]].is = Tab[r[j]].is) => Tab[r[i]].drops = {}
Emit == PrintT("@" \o ToJson([i |-> as, o |-> Result(as)]))
=============================================================================
