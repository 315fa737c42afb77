------------------------------ MODULE EPSFileMC ------------------------------
(* All small files, with the box they declare, and all placements. *)
EXTENDS EPSFile, TLC, Json
CONSTANTS MaxHead, MaxBody, MaxTrail
VARIABLES what, lines, s, place
Line(k, b) == [k |-> k, b |-> b]
Lines == {Line(k, 0) : k \in {"magic", "bad", "atend", "comment", "endcomments", "code", "plain", "doc", "enddoc", "data", "trailer"}} \cup {Line("bb", b) : b \in 1..2}
NBoxes(ls) == Cardinality({i \in DOMAIN ls : ls[i].k = "bb"})
Room(ph) == CASE ph = "start" -> 1 [] ph \in {"header", "deferred"} -> MaxHead [] ph = "body" -> MaxBody [] ph = "trailer" -> MaxTrail [] ph = "found" -> 2 [] OTHER -> 0
Boxes == {<<0, 0, 30, 40>>, <<-12, 8, 48, 28>>, <<5, -50, 55, -20>>}
Sizes == {<<>>, <<60, 1>>, <<45, 2>>}
Places == [x : {<<0, 1>>, <<-17, 2>>}, y : {<<10, 1>>}, w : Sizes, h : Sizes, s : {<<>>, <<1, 2>>, <<3, 1>>}, ha : {"l", "c", "r"}, va : {"b", "c", "t"}, tb : BOOLEAN]
None == [x |-> <<>>]
Init == \/ what = "scan" /\ lines = <<>> /\ s = [st |-> Start, n |-> 0] /\ place = <<>>
        \/ what = "place" /\ lines = <<>> /\ s = [st |-> Start, n |-> 0] /\ \E b \in Boxes, p \in Places : place = <<b, p>>
Next == /\ what = "scan"
        /\ \E t \in Lines :
             /\ s.n < Room(s.st.ph) \/ (t.k = "trailer" /\ s.st.ph = "body" /\ s.n = MaxBody)
             /\ Legal(s.st, t)
             \* boxes are numbered in their order of occurrence
             /\ t.k = "bb" => t.b = NBoxes(lines) + 1
             /\ lines' = Append(lines, t)
             /\ LET n == LineStep(s.st, t) same == n.ph = s.st.ph \/ {n.ph, s.st.ph} = {"header", "deferred"}
                IN s' = [st |-> n, n |-> IF ~same THEN 0 ELSE IF t.k = "enddoc" THEN s.n ELSE s.n + 1]
        /\ UNCHANGED <<what, place>>
At(k) == {i \in DOMAIN lines : lines[i].k = k}
MinS(x) == CHOOSE i \in x : \A j \in x : i <= j
\* exactly one declaration counts: the first of the header or the last of the file
OneCounts ==
  Declared(s.st) # 0 =>
    LET at == CHOOSE i \in At("bb") : lines[i].b = Declared(s.st) IN
    \/ \A i \in At("bb") \cup At("atend") \cup At("endcomments") \cup At("code") : i >= at
    \/ At("atend") # {} /\ At("trailer") # {} /\ \A i \in At("bb") : i <= at
Sizes2 ==
  what = "place" =>
    LET b == place[1] p == place[2] m == Placed(b, p) im == Image(m, b) IN
    p.s = <<>> =>
      /\ p.w # <<>> => SubF(im[3], im[1]) = p.w
      /\ p.h # <<>> => SubF(im[4], im[2]) = p.h
      /\ (p.w = <<>> \/ p.h = <<>>) => m[1] = m[2]
      /\ p.tb => /\ (p.ha = "l" => im[1] = p.x) /\ (p.ha = "r" => im[3] = p.x) /\ (p.ha = "c" => AddF(im[1], im[3]) = MulF(I2F(2), p.x))
                 /\ (p.va = "b" => im[2] = p.y) /\ (p.va = "t" => im[4] = p.y) /\ (p.va = "c" => AddF(im[2], im[4]) = MulF(I2F(2), p.y))
Both == place # <<>> /\ place[2].s # <<>> /\ (place[2].w # <<>> \/ place[2].h # <<>>)
Emit == PrintT("@" \o ToJson(IF what = "scan" THEN [k |-> "scan", lines |-> lines, box |-> Declared(s.st)]
                             ELSE [k |-> "place", b |-> place[1], p |-> place[2], bad |-> Both, m |-> IF Both THEN <<>> ELSE Placed(place[1], place[2])]))
=============================================================================
