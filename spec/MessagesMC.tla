----------------------------- MODULE MessagesMC -----------------------------
(* All short messages with the result of every parser, replayed into the parsers. *)
EXTENDS Messages, TLC, Json
CONSTANT MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E k \in Kinds : s' = Append(s, k)
\* a parser never invents, repeats or reorders anything, and a second run finds nothing new
Ordered == \A p \in Parsers : LET r == Parse(p, s) IN \A i \in 1..Len(r.keep) - 1 : r.keep[i] < r.keep[i + 1]
Idempotent == \A p \in Parsers \ {"start", "end"} : LET r == Parse(p, s)
                                                        s2 == [i \in DOMAIN r.keep |-> s[r.keep[i]]] IN Parse(p, s2).keep = All(s2)
\* parsers of different passages which never refuse commute
Commute == \A p \in Parsers \ {"start", "end", "ignore", "warn"} : \A q \in Parsers \ {"start", "end", "ignore", "warn"} :
             (Blocks(p) = {} /\ Blocks(q) = {}) => ParseAll(<<p, q>>, s, All(s)) = ParseAll(<<q, p>>, s, All(s))
Emit == PrintT("@" \o ToJson([s |-> s, r |-> [p \in Parsers |-> IF Sensible(p, s) THEN Parse(p, s) ELSE [ok |-> TRUE, keep |-> <<0>>, warns |-> <<>>]]]))
=============================================================================
