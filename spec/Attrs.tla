-------------------------------- MODULE Attrs --------------------------------
(* Attribute lists: what one list of attributes means.  An attribute is a record with a kind k;  *)
(* [k |-> "clear", c |-> kind] removes the preceding attributes of a kind, [k |-> "clearall"]    *)
(* all preceding ones.  Exclusive kinds keep only the last attribute; a line width precedes the  *)
(* dash attributes that are measured in line widths.                                            *)
EXTENDS Naturals, Sequences
CONSTANTS ExclusiveKinds, Before      \* Before[k]: the kinds in front of which an attribute of kind k is put
RECURSIVE AttrFilter(_, _)
AttrFilter(s, k) == IF s = <<>> THEN <<>> ELSE (IF Head(s).k = k THEN <<>> ELSE <<Head(s)>>) \o AttrFilter(Tail(s), k)
FirstOf(s, ks) == IF \E i \in DOMAIN s : s[i].k \in ks
                  THEN CHOOSE i \in DOMAIN s : s[i].k \in ks /\ \A j \in 1..(i - 1) : s[j].k \notin ks
                  ELSE Len(s) + 1
AttrAdd(s, a) ==
  IF a.k = "clearall" THEN <<>>
  ELSE IF a.k = "clear" THEN AttrFilter(s, a.c)
  ELSE LET r == IF a.k \in ExclusiveKinds THEN AttrFilter(s, a.k) ELSE s
           i == IF a.k \in DOMAIN Before THEN FirstOf(r, Before[a.k]) ELSE Len(r) + 1
       IN SubSeq(r, 1, i - 1) \o <<a>> \o SubSeq(r, i, Len(r))
RECURSIVE AttrMerge(_, _)
AttrMerge(s, as) == IF as = <<>> THEN s ELSE AttrMerge(AttrAdd(s, Head(as)), Tail(as))
Merged(as) == AttrMerge(<<>>, as)
RECURSIVE Select(_, _)
Select(s, ks) == IF s = <<>> THEN <<>> ELSE (IF Head(s).k \in ks THEN <<Head(s)>> ELSE <<>>) \o Select(Tail(s), ks)
=============================================================================
