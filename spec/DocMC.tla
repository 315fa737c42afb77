------------------------------- MODULE DocMC -------------------------------
(* A document writer with one resource registry per page merged into one for the document: every small document. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxPages, MaxUses
VARIABLES doc,     \* pages as sequences of used resources
          cur,     \* the page under construction
          page,    \* registry of the current page: sequence of resources without repetition
          decl,    \* resource dictionaries of the finished pages
          all      \* registry of the document
vars == <<doc, cur, page, decl, all>>
Init == doc = <<>> /\ cur = <<>> /\ page = <<>> /\ decl = <<>> /\ all = <<>>
In(s, x) == \E i \in DOMAIN s : s[i] = x
AddTo(s, x) == IF In(s, x) THEN s ELSE Append(s, x)
RECURSIVE Merge(_, _)
Merge(s, t) == IF t = <<>> THEN s ELSE Merge(AddTo(s, Head(t)), Tail(t))
Use(x) == /\ Len(doc) < MaxPages /\ Len(cur) < MaxUses
          /\ cur' = Append(cur, x)
          /\ page' = AddTo(page, x)
          /\ UNCHANGED <<doc, decl, all>>
EndPage == /\ Len(doc) < MaxPages
           /\ doc' = Append(doc, cur) /\ cur' = <<>> /\ page' = <<>>
           /\ decl' = Append(decl, page)
           /\ all' = Merge(all, page)
Next == EndPage \/ \E x \in 1..N : Use(x)
Refno(x) == CHOOSE i \in DOMAIN all : all[i] = x
Range(s) == {s[i] : i \in DOMAIN s}
\* every page declares exactly what it uses, each declared resource has one number, and nothing unused is written
Sound == /\ \A i \in DOMAIN doc : Range(decl[i]) = Range(doc[i])
         /\ Range(all) = UNION {Range(doc[i]) : i \in DOMAIN doc}
         /\ Cardinality(Range(all)) = Len(all)
         /\ \A i \in DOMAIN decl : \A x, y \in Range(decl[i]) : Refno(x) = Refno(y) => x = y
Emit == (doc # <<>> /\ cur = <<>>) => PrintT("@" \o ToJson(doc))
=============================================================================
