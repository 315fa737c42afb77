------------------------------- MODULE Merge -------------------------------
(* Merging attribute lists, over an arbitrary table of attributes:                               *)
(*   Tab[i] = [is |-> kinds the attribute belongs to, drops |-> kinds it removes from the list,    *)
(*             all |-> whether it removes everything, before |-> kinds it is put in front of,     *)
(*             stays |-> whether it becomes part of the list itself]                              *)
(* Lists are sequences of indices into the table.                                                *)
EXTENDS Integers, Sequences
CONSTANT Tab
RECURSIVE Without(_, _)
Without(s, ks) == IF s = <<>> THEN <<>> ELSE (IF Tab[Head(s)].is \cap ks # {} THEN <<>> ELSE <<Head(s)>>) \o Without(Tail(s), ks)
FirstIn(s, ks) == IF \E i \in DOMAIN s : Tab[s[i]].is \cap ks # {}
                  THEN CHOOSE i \in DOMAIN s : Tab[s[i]].is \cap ks # {} /\ \A j \in 1..(i - 1) : Tab[s[j]].is \cap ks = {}
                  ELSE Len(s) + 1
Add(s, a) == LET r == IF Tab[a].all THEN <<>> ELSE Without(s, Tab[a].drops)
                 i == FirstIn(r, Tab[a].before)
             IN IF Tab[a].stays THEN SubSeq(r, 1, i - 1) \o <<a>> \o SubSeq(r, i, Len(r)) ELSE r
RECURSIVE Onto(_, _)
Onto(s, as) == IF as = <<>> THEN s ELSE Onto(Add(s, Head(as)), Tail(as))
Result(as) == Onto(<<>>, as)
=============================================================================
