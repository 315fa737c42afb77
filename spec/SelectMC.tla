------------------------------ MODULE SelectMC ------------------------------
EXTENDS FiniteSets, Select, TLC, Json
CONSTANTS MaxLen, MaxTotal
Lib == << [t |-> "fix", v |-> Val("lw", 3, 1)],
          [t |-> "cyc", vs |-> <<Val("cap", 0, 1), Val("cap", 1, 1), Val("cap", 2, 1)>>],
          [t |-> "list", vs |-> <<Val("join", 2, 1), Val("join", 1, 1), Val("join", 0, 1)>>],
          [t |-> "grad", k |-> "gray", lo |-> 0, hi |-> 100],
          [t |-> "grad", k |-> "gray", lo |-> 80, hi |-> 20],
          [t |-> "cyc", vs |-> <<Val("lw", 5, 1)>>],
          [t |-> "multi", as |-> << [t |-> "fix", v |-> Val("lw", 1, 1)],
                                    [t |-> "grad", k |-> "gray", lo |-> 0, hi |-> 60],
                                    [t |-> "cyc", vs |-> <<Val("cap", 2, 1), Val("cap", 0, 1)>>],
                                    [t |-> "list", vs |-> <<Val("lw", 7, 1), Val("lw", 9, 1)>>] >>] >>
VARIABLES as, n
Init == as = <<>> /\ n \in 1..MaxTotal
Next == Len(as) < MaxLen /\ \E i \in DOMAIN Lib : as' = Append(as, i) /\ n' = n
L == [j \in DOMAIN as |-> Lib[as[j]]]
Expected == [i \in 1..n |-> SelAll(L, i - 1, n)]
Spread == \A i \in 1..n : Expected[i] # <<>> => Len(Expected[i][1]) = Len(as)
Independent == \A i \in 1..n : \A j \in DOMAIN as : Expected[i] # <<>> => Expected[i][1][j] = SelAll(<<L[j]>>, i - 1, n)[1][1]
Emit == PrintT("@" \o ToJson([as |-> as, n |-> n, exp |-> Expected]))
=============================================================================
