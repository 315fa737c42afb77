------------------------------ MODULE TokensMC ------------------------------
(* All texts up to MaxLen over one character of each kind, with their tokens: replayed into both tokenizers. *)
EXTENDS Tokens, TLC, Json
CONSTANT MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in {"a", " ", "\n", "/", "[", "%"} : s' = Append(s, c)
ts == AllTokens(s, 1)
\* tokens are disjoint and in order, without separators, and everything between them is separators and comments
Disjoint == \A i \in 1..Len(ts) - 1 : ts[i].to <= ts[i + 1].from
Pure == \A i \in DOMAIN ts : ts[i].to > ts[i].from /\ \A p \in ts[i].from..ts[i].to - 1 : ~IsSep(s[p]) /\ (p > ts[i].from => ~IsStart(s[p]))
Commented(p) == \E q \in 1..p : s[q] = "%" /\ \A k \in q..p : s[k] \notin LineEnds
Nothing == \A p \in DOMAIN s : IsSep(s[p]) \/ Commented(p) \/ \E i \in DOMAIN ts : p \in ts[i].from..ts[i].to - 1
Emit == PrintT("@" \o ToJson([s |-> s, t |-> [i \in DOMAIN ts |-> <<ts[i].from, ts[i].to, ts[i].next>>]]))
=============================================================================
