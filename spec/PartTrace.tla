----------------------------- MODULE PartTrace -----------------------------
(* Ticks and ranges of created axes.  One event per axis; positions of linear axes are integers in *)
(* a unit given by the recorder such that the data range lies in 10^5..10^6; positions of           *)
(* logarithmic axes are codes 100 * exponent + 10 * mantissa, which are ordered like the values.    *)
EXTENDS TraceLib, Part
VARIABLES tid, l, st, err
BAD == 99991
Codes(lo, hi, f, k) == {100 * i + 10 * f[j] : i \in {n \in FloorDiv(lo, 100)..CeilDiv(hi, 100) : n % k = 0}, j \in DOMAIN f} \cap lo..hi
Down(x, f, k) == SetMax(Codes(x - 100 * (k + 1), x, f, k))
Up(x, f, k) == SetMin(Codes(x, x + 100 * (k + 1), f, k))
F1 == <<1>>
F125 == <<1, 2, 5>>
F19 == <<1, 2, 3, 4, 5, 6, 7, 8, 9>>
\* variants of a logarithmic partition: tick and label levels, each mantissas and exponent
G(f, k) == [f |-> f, k |-> k]
LogVariants == <<[t |-> <<G(F1, 1), G(F19, 1)>>, l |-> <<G(F1, 1), G(F125, 1)>>],
                 [t |-> <<G(F1, 1), G(F19, 1)>>, l |-> <<G(F1, 1)>>]>>
               \o [k \in 1..9 |-> [t |-> <<G(F1, k + 1), G(F1, 1)>>, l |-> <<G(F1, k + 1)>>]]
LogTicks(lo, hi, v) == Partition([i \in DOMAIN v.t |-> Codes(lo, hi, v.t[i].f, v.t[i].k)], [i \in DOMAIN v.l |-> Codes(lo, hi, v.l[i].f, v.l[i].k)])
LogAuto(e, v) == LET g == v.t[1] IN
                 LogTicks(IF e.fmin /\ e.et >= 0 THEN Down(e.min, g.f, g.k) ELSE e.min, IF e.fmax /\ e.et >= 0 THEN Up(e.max, g.f, g.k) ELSE e.max, v)
\* distances of the automatic linear partitions
Base(j) == CASE j = -2 -> 1000 [] j = -1 -> 10000 [] j = 0 -> 100000 [] j = 1 -> 1000000 [] j = 2 -> 10000000
LinVariants(j) == LET b == Base(j) IN {<<b, b \div 2>>, <<2 * b, b>>, <<(5 * b) \div 2, (5 * b) \div 4>>, <<5 * b, (5 * b) \div 2>>}
LinCase(e, ts, ls, et, el) == [min |-> e.min, max |-> e.max, fmin |-> e.fmin, fmax |-> e.fmax, ticks |-> ts, labels |-> ls, et |-> et, el |-> el]
LinCount(e, d, et) == LET r == IF et >= 0 THEN LinExt(<<e.min, e.max>>, d[1], e.fmin, e.fmax) ELSE <<e.min, e.max>>
                      IN FloorDiv(r[2], d[2]) - CeilDiv(r[1], d[2])
\* manual ticks replace those of the partition at the same position
RECURSIVE Join(_, _)
Join(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
              ELSE IF Head(a).p = Head(b).p THEN <<Head(a)>> \o Join(Tail(a), Tail(b))
              ELSE IF Head(a).p < Head(b).p THEN <<Head(a)>> \o Join(Tail(a), b) ELSE <<Head(b)>> \o Join(a, Tail(b))
TicksOk(e) ==
  CASE e.k = "linear" -> e.res = Join(e.manual, LinPart(LinCase(e, e.ticks, e.labels, e.et, e.el)))
    [] e.k = "autolinear" -> \E j \in -2..2 : \E d \in LinVariants(j) :
                               /\ LinCount(e, d, e.et) \in (Len(e.res) - Len(e.manual) - 3)..(Len(e.res) + 3)
                               /\ e.res = Join(e.manual, LinPart(LinCase(e, <<d>>, <<>>, e.et, -1)))
    [] e.k = "autolog" -> \E i \in DOMAIN LogVariants : e.res = Join(e.manual, LogAuto(e, LogVariants[i]))
    [] e.k = "none" -> e.res = e.manual
    [] OTHER -> FALSE
First(e) == IF e.res = <<>> THEN e.min ELSE e.res[1].p
Last(e) == IF e.res = <<>> THEN e.max ELSE e.res[Len(e.res)].p
TInit(t) == 0
TStep(s, e, t) ==
  IF e.exc # "" THEN Bad(s, "refused")
  ELSE Clauses(s, << <<\A i \in DOMAIN e.res : e.res[i].p # BAD, "tick-off-grid">>,
                     <<\A i \in 1..(Len(e.res) - 1) : e.res[i].p < e.res[i + 1].p, "tick-order">>,
                     <<TicksOk(e), "ticks">>,
                     <<e.rng[1] = IF e.fmin THEN Min2(e.min, First(e)) ELSE e.min, "range-begin">>,
                     <<e.rng[2] = IF e.fmax THEN Max2(e.max, Last(e)) ELSE e.max, "range-end">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = TInit(Traces[i]) /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1], Traces[tid]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
