------------------------------ MODULE BarAxis ------------------------------
(* Bar, nested bar and split axes: trees of sub-axes with sizes, and the position of a value.      *)
(* Configurations: [k |-> "lin" | "sized" | "auto" | "bar", size, min, max, rev,                    *)
(*   dist, first, last, def |-> <<configuration>>, named |-> <<[n, c]>>]; sizes and distances are   *)
(* in quarters of the size of a plain sub-axis.  Values: [p |-> names, x |-> <<>> or <<number>>].   *)
EXTENDS AxisMap
UQ == 4
RECURSIVE New(_), Adj(_, _, _), Size(_, _)
New(c) == IF c.k = "bar" THEN [names |-> <<>>, subs |-> <<>>] ELSE [lo |-> c.min, hi |-> c.max]
Has(st, n) == \E i \in DOMAIN st.names : st.names[i] = n
IdxOf(st, n) == CHOOSE i \in DOMAIN st.names : st.names[i] = n
CfgOf(c, n) == IF c.named = <<>> THEN c.def[1] ELSE LET i == CHOOSE i \in DOMAIN c.named : c.named[i].n = n IN c.named[i].c
\* may a sub-axis of that name exist
Known(c, n) == c.named = <<>> \/ \E i \in DOMAIN c.named : c.named[i].n = n
RECURSIVE AddNames(_, _, _)
AddNames(c, st, vs) == IF vs = <<>> THEN st
   ELSE LET n == Head(vs).p[1] IN
        AddNames(c, IF Has(st, n) THEN st
                    ELSE IF c.rev THEN [names |-> <<n>> \o st.names, subs |-> <<New(CfgOf(c, n))>> \o st.subs]
                    ELSE [names |-> Append(st.names, n), subs |-> Append(st.subs, New(CfgOf(c, n)))], Tail(vs))
Under(vs, n) == LET sel == SelectSeq(vs, LAMBDA v : v.p[1] = n) IN [i \in DOMAIN sel |-> [p |-> Tail(sel[i].p), x |-> sel[i].x]]
Adj(c, st, vs) ==
  IF c.k = "bar" THEN LET s == AddNames(c, st, vs) IN [names |-> s.names, subs |-> [i \in DOMAIN s.names |-> Adj(CfgOf(c, s.names[i]), s.subs[i], Under(vs, s.names[i]))]]
  ELSE LET X == {vs[i].x[1] : i \in {j \in DOMAIN vs : vs[j].x # <<>>}} IN
       IF X = {} THEN st ELSE [lo |-> IF c.min # <<>> THEN c.min ELSE <<SetMin(Range(st.lo) \cup X)>>, hi |-> IF c.max # <<>> THEN c.max ELSE <<SetMax(Range(st.hi) \cup X)>>]
\* size of an axis as a share, in quarters
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Size(c, st) == CASE c.k = "lin" -> UQ
                 [] c.k = "sized" -> c.size
                 [] c.k = "auto" -> IF st.lo # <<>> /\ st.hi # <<>> THEN UQ * (st.hi[1] - st.lo[1]) ELSE 0
                 [] OTHER -> c.first + c.last + Sum([i \in DOMAIN st.names |-> Size(CfgOf(c, st.names[i]), st.subs[i])]) + c.dist * (Len(st.names) - 1)
Sizes(c, st) == [i \in DOMAIN st.names |-> Size(CfgOf(c, st.names[i]), st.subs[i])]
\* begin and end of sub-axis i, and the end points including half of the distances, in quarters
Begin(c, st, i) == c.first + Sum(SubSeq(Sizes(c, st), 1, i - 1)) + c.dist * (i - 1)
End(c, st, i) == Begin(c, st, i) + Sizes(c, st)[i]
\* all in half quarters
OverBegin2(c, st, i) == IF i = 1 THEN 0 ELSE 2 * End(c, st, i - 1) + c.dist
OverEnd2(c, st, i) == IF i = Len(st.names) THEN 2 * Size(c, st) ELSE 2 * End(c, st, i) + c.dist
\* position of a value as <<numerator, denominator>>; <<>> when it is not on the axis
RECURSIVE Place(_, _, _)
Place(c, st, v) ==
  IF c.k = "bar" THEN
    IF v.p = <<>> \/ ~Has(st, v.p[1]) THEN <<>>
    ELSE LET i == IdxOf(st, v.p[1])
             q == Place(CfgOf(c, v.p[1]), st.subs[i], [v EXCEPT !.p = Tail(v.p)])
         IN IF q = <<>> \/ q[1] < 0 \/ q[1] > q[2] THEN <<>>
            ELSE <<Begin(c, st, i) * q[2] + q[1] * Sizes(c, st)[i], Size(c, st) * q[2]>>
  ELSE IF v.p # <<>> THEN <<>> ELSE Pos(c, <<st.lo[1], st.hi[1]>>, v.x[1])
\* can the axis be laid out: all leaves have a range
RECURSIVE Ready(_, _)
Ready(c, st) == IF c.k = "bar" THEN \A i \in DOMAIN st.names : Ready(CfgOf(c, st.names[i]), st.subs[i])
                ELSE st.lo # <<>> /\ st.hi # <<>> /\ st.lo # st.hi
=============================================================================
