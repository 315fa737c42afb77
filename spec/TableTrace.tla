----------------------------- MODULE TableTrace -----------------------------
(* t.ev: a history of creating data sets; the state is the sequence of the data sets created so far.    *)
(* [k |-> "file" | "points" | "values" | "conf" | "derive" | "join", ..., cols |-> recorded <<name, values>>, names |-> recorded names] *)
(* [k |-> "again", i, cols, names]: the columns of an earlier data set, read once more                  *)
EXTENDS TraceLib, Table
VARIABLES tid, l, st, err
SetOf(x) == {x[i] : i \in DOMAIN x}
NearV(a, b) == a.t = b.t /\ a.s = b.s /\ a.n - b.n \in -1..1
NearC(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : NearV(a[k], b[k])
New(s, e) == CASE e.k = "file" -> FileTable(e.lines, e.skiphead, e.skiptail, e.every)
               [] e.k = "points" -> PointsTable(e.rows, e.spec, e.numbers)
               [] e.k = "values" -> ValuesTable(e.spec)
               [] e.k = "conf" -> ConfTable(e.secs)
               [] e.k = "derive" -> Derive(s[e.of], e.spec, e.copy)
               [] e.k = "join" -> Join([k \in DOMAIN e.of |-> s[e.of[k]]])
               [] e.k = "again" -> s[e.of]
\* function values: e.n points between e.a and e.b (in units of the axis), recorded in thousandths
Func(e) == /\ Len(e.xs) = e.n
           /\ \A i \in 1..e.n : (e.xs[i] * (e.n - 1) - 1000 * (e.a * (e.n - 1) + (e.b - e.a) * (i - 1))) \in -(e.n)..e.n
           /\ \A i \in 1..e.n : e.ys[i].t = (IF e.xs[i] = 0 /\ e.div THEN "z" ELSE "n")
           /\ ~e.div => \A i \in 1..e.n : e.ys[i].n - (2 * e.xs[i] + 1000) \in -3..3
\* map files (cbd): e.segs a sequence of [org |-> <<lon, lat>>, wrap, rank, bytes |-> sequence of strokes (of 2 or 8 bytes)];
\* a byte 2 with bit 6 set marks a short stroke: one signed byte for the latitude, seven signed bits (without bit 6) for the longitude;
\* otherwise 32 bits each, the high word first, where the cleared bit 6 of the highest byte takes the value of the sign bit;
\* all in seconds of arc; segments which cross the date line are continued beyond 180 degrees; missing values separate segments
Twos(b, n) == IF b >= n THEN b - 2 * n ELSE b
CbdMove(b) == IF (b[2] \div 64) % 2 = 1 THEN <<IF b[2] >= 128 THEN b[2] - 256 ELSE b[2] - 64, Twos(b[1], 128)>>
              ELSE LET hi == b[1] + 256 * (IF b[2] >= 128 THEN b[2] + 64 ELSE b[2])
                   IN <<Twos(hi, 32768) * 65536 + b[3] + 256 * b[4], Twos(b[5] + 256 * b[6], 32768) * 65536 + b[7] + 256 * b[8]>>
RECURSIVE CbdPoints(_, _, _)
CbdPoints(p, b, k) == <<p>> \o (IF k > Len(b) THEN <<>> ELSE LET m == CbdMove(b[k]) IN CbdPoints(<<p[1] + m[1], p[2] + m[2]>>, b, k + 1))
CbdSeg(x) == LET ps == CbdPoints(x.org, x.bytes, 1) IN [i \in DOMAIN ps |-> IF x.wrap /\ ps[i][1] < 0 THEN <<ps[i][1] + 1296000, ps[i][2]>> ELSE ps[i]]
RECURSIVE CbdRows(_, _)
CbdRows(xs, k) == IF k > Len(xs) THEN <<>> ELSE (IF k = 1 THEN <<>> ELSE << <<>> >>) \o CbdSeg(xs[k]) \o CbdRows(xs, k + 1)
Cbd(e) == LET on == SelectSeq(e.segs, LAMBDA x : (e.minrank < 0 \/ x.rank >= e.minrank) /\ (e.maxrank < 0 \/ x.rank <= e.maxrank))
          IN e.rows = CbdRows(on, 1) /\ e.numbers = [i \in 1..Len(e.rows) |-> i]
SplitSec(v, ps) == LET s == Cardinality({i \in DOMAIN ps : ps[i] < v}) IN
                   IF Len(ps) <= 1 THEN s ELSE IF s % 2 = 1 THEN -1 ELSE s \div 2
TStep(s, e) ==
  IF e.failed # "" THEN Bad(s, "refused")
  ELSE IF e.k = "func" THEN Clauses(s, << <<Func(e), "function-points">> >>)
  ELSE IF e.k = "cbd" THEN Clauses(s, << <<Cbd(e), "map-points">> >>)
  ELSE IF e.k = "split" THEN Clauses(s, << <<e.sec = SplitSec(e.v, e.ps), "section">> >>)
  ELSE LET d == New(s, e)
           names == {c[1] : c \in d.cols}
           got == SetOf(e.cols)
       IN Clauses(IF e.k = "again" THEN s ELSE Append(s, d),
                  << <<SetOf(e.names) = names /\ Len(e.names) = Cardinality(names), "column-names">>,
                     <<{c[1] : c \in got} = names, "columns">>,
                     <<\A c \in got : HasCol(d, c[1]) => Len(c[2]) = Len(ColOf(d, c[1])), "number-of-rows">>,
                     <<\A c \in got : HasCol(d, c[1]) => NearC(c[2], ColOf(d, c[1])), "values">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = <<>> /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
