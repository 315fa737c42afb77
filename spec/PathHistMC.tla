------------------------------ MODULE PathHistMC ------------------------------
(* All histories of MaxOps operations on two paths. *)
EXTENDS PathHist, TLC, Json
CONSTANTS MaxOps
O(p) == [p |-> p, z |-> FALSE]
Z(p) == [p |-> p, z |-> TRUE]
A == <<O(<< <<0, 0>>, <<120, 0>>, <<120, 60>> >>)>>
B == <<O(<< <<120, 60>>, <<300, -180>> >>), Z(<< <<600, 0>>, <<600, 240>>, <<780, 240>>, <<780, 0>> >>)>>
C == <<Z(<< <<0, 0>>, <<180, 0>>, <<180, 240>> >>), O(<< <<-60, 0>>, <<-60, 120>> >>), O(<< <<60, -60>>, <<180, -60>> >>)>>
StartSet == {<<A, B>>, <<B, C>>}
Op == [k |-> "", i |-> 1, j |-> 1, s |-> <<>>, m |-> <<>>, d |-> <<>>, at |-> <<>>]
Ops(vals) ==
  LET n == DOMAIN vals IN
       {[Op EXCEPT !.k = k, !.i = i] : k \in {"reversed", "copy", "norm", "topath", "close", "query"}, i \in n}
  \cup {[Op EXCEPT !.k = k, !.i = i, !.j = j] : k \in {"joined", "join", "add", "iadd"}, i \in n, j \in n}
  \cup {[Op EXCEPT !.k = "trans", !.i = i, !.m = m] : i \in n, m \in {<<0, -1, 1, 0, 60, 0>>, <<-2, 0, 0, 2, 0, 120>>}}
  \cup {[Op EXCEPT !.k = "split", !.i = i, !.s = s] : i \in n, s \in {<<60>>, <<90, 450>>, <<30, 90>>}}
  \cup {[Op EXCEPT !.k = "line", !.i = i, !.d = <<0, 120>>] : i \in n}
  \cup {[Op EXCEPT !.k = "sub", !.i = i, !.at = <<900, 900>>, !.d = <<60, 0>>] : i \in n}
VARIABLES start, vals, ops
Init == start \in StartSet /\ vals = start /\ ops = <<>>
Next == /\ Len(ops) < MaxOps
        /\ \E o \in {o \in Ops(vals) : Can(vals, o)} : vals' = Do(vals, o) /\ ops' = Append(ops, o)
        /\ UNCHANGED start
\* an operation changes at most the path it is applied to
Values == [][LET o == Last(ops') IN \A i \in DOMAIN vals : vals'[i] = vals[i] \/ (InPlace(o) /\ i = o.i)]_<<vals, ops>>
Sound == \A i \in DOMAIN vals : Whole(vals[i])
Emit == Len(ops) = MaxOps => PrintT("@" \o ToJson([start |-> start, ops |-> ops, vals |-> vals]))
=============================================================================
