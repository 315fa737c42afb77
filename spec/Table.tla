------------------------------- MODULE Table -------------------------------
(* Data sets of a graph: tables with named and numbered columns, and how they are read from files, *)
(* derived from and joined to each other.  Text is a sequence of character codes.                  *)
(* A value is a record [t, n, s]: t = "n" a number (in thousandths), "s" a text, "z" missing.      *)
EXTENDS Integers, Sequences, FiniteSets
Num(x) == [t |-> "n", n |-> x, s |-> <<>>]
Txt(c) == [t |-> "s", n |-> 0, s |-> c]
None == [t |-> "z", n |-> 0, s |-> <<>>]
Space == {9, 10, 11, 12, 13, 32}
Digit == 48..57
Quote == 34
RECURSIVE LStrip(_), RStrip(_)
LStrip(c) == IF c # <<>> /\ c[1] \in Space THEN LStrip(Tail(c)) ELSE c
RStrip(c) == IF c # <<>> /\ c[Len(c)] \in Space THEN RStrip(SubSeq(c, 1, Len(c) - 1)) ELSE c
Strip(c) == RStrip(LStrip(c))
From(c, i) == SubSeq(c, i, Len(c))
\* ------------------------------------------------------------------ lines
CommentChars == {35, 33, 37}
IsComment(c) == c # <<>> /\ c[1] \in CommentChars
RECURSIVE DropRun(_, _)
DropRun(c, x) == IF c # <<>> /\ c[1] = x THEN DropRun(Tail(c), x) ELSE c
CommentText(c) == LStrip(DropRun(c, c[1]))
\* the end of a quoted text at the begin of c: the first quote which is followed by space or nothing; 0 if there is none
QuoteEnd(c) == IF c = <<>> \/ (c # <<>> /\ c[1] # Quote) THEN 0
               ELSE LET E == {j \in 2..Len(c) : c[j] = Quote /\ (j = Len(c) \/ (j < Len(c) /\ c[j + 1] \in Space))}
                    IN IF E = {} THEN 0 ELSE CHOOSE j \in E : \A k \in E : j <= k
WordEnd(c) == LET E == {j \in 1..Len(c) : c[j] \in Space} IN IF E = {} THEN Len(c) ELSE (CHOOSE j \in E : \A k \in E : j <= k) - 1
RECURSIVE Items(_)
Items(c) == IF c = <<>> THEN <<>>
            ELSE LET q == QuoteEnd(c)  k == WordEnd(c) IN
                 IF q > 0 THEN <<[q |-> TRUE, c |-> SubSeq(c, 2, q - 1)]>> \o Items(LStrip(From(c, q + 1)))
                          ELSE <<[q |-> FALSE, c |-> SubSeq(c, 1, k)]>> \o Items(LStrip(From(c, k + 1)))
\* ------------------------------------------------------------------ numbers: [+-]digits[.digits][e[+-]digits]
RECURSIVE Val(_, _)
Val(c, acc) == IF c = <<>> THEN acc ELSE Val(Tail(c), 10 * acc + c[1] - 48)
AllDigits(c) == \A i \in DOMAIN c : c[i] \in Digit
RECURSIVE P10(_)
P10(k) == IF k = 0 THEN 1 ELSE 10 * P10(k - 1)
Signed(c) == c # <<>> /\ c[1] \in {43, 45}
Body(c) == IF Signed(c) THEN Tail(c) ELSE c
Sgn(c) == IF Signed(c) /\ c[1] = 45 THEN -1 ELSE 1
IsInt(c) == Body(c) # <<>> /\ AllDigits(Body(c))
ExpAt(c) == LET E == {i \in DOMAIN c : c[i] \in {69, 101}} IN IF Cardinality(E) = 1 THEN CHOOSE i \in E : TRUE ELSE IF E = {} THEN Len(c) + 1 ELSE 0
DotAt(c) == LET E == {i \in DOMAIN c : c[i] = 46} IN IF Cardinality(E) = 1 THEN CHOOSE i \in E : TRUE ELSE IF E = {} THEN Len(c) + 1 ELSE 0
MantOk(m) == LET b == Body(m)  d == DotAt(b) IN
   d > 0 /\ AllDigits(SubSeq(b, 1, d - 1)) /\ AllDigits(From(b, d + 1)) /\ Len(b) - (IF d <= Len(b) THEN 1 ELSE 0) > 0
IsNumber(c) == LET e == ExpAt(c) IN e > 1 /\ MantOk(SubSeq(c, 1, e - 1)) /\ (e <= Len(c) => IsInt(From(c, e + 1)))
\* in thousandths (exact for the numbers used: at most 3 digits are left after the decimal point)
NumberOf(c) == LET e == ExpAt(c)  m == SubSeq(c, 1, e - 1)  b == Body(m)  d == DotAt(b)
                   x == IF e <= Len(c) THEN Sgn(From(c, e + 1)) * Val(Body(From(c, e + 1)), 0) ELSE 0
                   frac == From(b, d + 1)
                   k == 3 + x - Len(frac)
                   v == Val(SubSeq(b, 1, d - 1) \o frac, 0)
               IN Sgn(m) * (IF k >= 0 THEN v * P10(k) ELSE v \div P10(-k))
ValueOf(i) == IF ~i.q /\ IsNumber(i.c) THEN Num(NumberOf(i.c)) ELSE Txt(i.c)
\* ------------------------------------------------------------------ files
\* a data set: [cols |-> set of <<name, values>>, num |-> columns by number from 0, hasnum]
RECURSIVE DataLines(_)
DataLines(ls) == IF ls = <<>> THEN <<>> ELSE LET c == Strip(Head(ls)) IN
   (IF c = <<>> \/ IsComment(c) THEN <<>> ELSE <<Items(c)>>) \o DataLines(Tail(ls))
\* the names: the last non-empty comment in front of the data
RECURSIVE Names(_, _)
Names(ls, found) == IF ls = <<>> THEN found
                    ELSE LET c == Strip(Head(ls)) IN
                         IF c = <<>> THEN Names(Tail(ls), found)
                         ELSE IF ~IsComment(c) THEN found
                         ELSE Names(Tail(ls), IF CommentText(c) = <<>> THEN found ELSE [k \in DOMAIN Items(CommentText(c)) |-> Items(CommentText(c))[k].c])
\* the lines shown: numbers of data lines
Shown(n, skiphead, skiptail, every) == SelectSeq([k \in 1..n |-> k], LAMBDA k : k > skiphead /\ k <= n - skiptail /\ (k - 1 - skiphead) % every = 0)
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
FileTable(ls, skiphead, skiptail, every) ==
  LET rows == DataLines(ls)
      show == Shown(Len(rows), skiphead, skiptail, every)
      \* lines skipped at the end count for the number of columns
      all == Shown(Len(rows), skiphead, 0, every)
      width == IF show = <<>> THEN 0 ELSE MaxS({Len(rows[all[k]]) : k \in DOMAIN all})
      cell(k, j) == IF j = 0 THEN Num(1000 * show[k]) ELSE IF j <= Len(rows[show[k]]) THEN ValueOf(rows[show[k]][j]) ELSE None
      names == Names(ls, <<>>)
      last(name) == MaxS({i \in DOMAIN names : names[i] = name /\ (show = <<>> \/ i <= width)})
      num == [j \in 1..(width + 1) |-> [k \in DOMAIN show |-> cell(k, j - 1)]]
  IN [cols |-> {<<names[i], IF show = <<>> THEN <<>> ELSE num[last(names[i]) + 1]>> : i \in {k \in DOMAIN names : show = <<>> \/ k <= width}},
      num |-> IF show = <<>> THEN <<>> ELSE num, hasnum |-> TRUE, empty |-> show = <<>>]
\* points given as rows of values; cols: <<name, number>>
PointsTable(rows, cols, numbers) ==
  LET width == IF rows = <<>> THEN 0 ELSE Len(rows[1])
      data == [j \in 1..width |-> [k \in DOMAIN rows |-> rows[k][j]]]
      num == IF rows = <<>> THEN <<>> ELSE IF numbers THEN <<[k \in DOMAIN rows |-> Num(1000 * k)]>> \o data ELSE data
      at(i) == IF i >= 0 THEN num[i + 1] ELSE num[Len(num) + 1 + i]
  IN [cols |-> {<<cols[i][1], IF rows = <<>> THEN <<>> ELSE at(cols[i][2])>> : i \in DOMAIN cols}, num |-> num, hasnum |-> TRUE, empty |-> rows = <<>>]
ValuesTable(cols) == [cols |-> {<<cols[i][1], cols[i][2]>> : i \in DOMAIN cols}, num |-> <<>>, hasnum |-> FALSE, empty |-> cols = <<>> \/ (cols # <<>> /\ cols[1][2] = <<>>)]
\* configuration files: sections in the order of their names are the rows, options the columns
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
\* secs: <<name, <<option, value>> ... >> in the order of the file; later values replace earlier ones
ConfTable(secs) ==
  LET names == {secs[i].name : i \in DOMAIN secs}
      order == CHOOSE f \in [1..Cardinality(names) -> names] : \A i \in DOMAIN f : \A j \in DOMAIN f : i < j => LexLess(f[i], f[j])
      opts == UNION {{secs[i].opts[j][1] : j \in DOMAIN secs[i].opts} : i \in DOMAIN secs}
      places(n, o) == {<<i, j>> \in (DOMAIN secs) \X (1..9) : secs[i].name = n /\ j \in DOMAIN secs[i].opts /\ secs[i].opts[j][1] = o}
      value(n, o) == LET P == places(n, o) IN IF P = {} THEN None
                     ELSE LET p == CHOOSE p \in P : \A q \in P : q[1] < p[1] \/ (q[1] = p[1] /\ q[2] <= p[2])
                          IN ValueOf([q |-> FALSE, c |-> secs[p[1]].opts[p[2]][2]])
  IN [cols |-> {<<o, [k \in DOMAIN order |-> value(order[k], o)]>> : o \in opts}, num |-> <<[k \in DOMAIN order |-> Txt(order[k])]>>, hasnum |-> TRUE, empty |-> secs = <<>>]
\* ------------------------------------------------------------------ derived data sets
ColOf(d, name) == (CHOOSE c \in d.cols : c[1] = name)[2]
HasCol(d, name) == \E c \in d.cols : c[1] = name
Rows(d) == IF d.cols # {} THEN Len((CHOOSE c \in d.cols : TRUE)[2]) ELSE IF d.num # <<>> THEN Len(d.num[1]) ELSE 0
\* a reference: [k |-> "num", i] or [k |-> "name", s]
Ref(d, r) == IF r.k = "num" THEN (IF d.num = <<>> THEN <<>> ELSE IF r.i >= 0 THEN d.num[r.i + 1] ELSE d.num[Len(d.num) + 1 + r.i]) ELSE ColOf(d, r.s)
RECURSIVE Sum(_, _, _)
Sum(d, ts, k) == IF ts = <<>> THEN 0 ELSE ts[1].c * Ref(d, ts[1].r)[k].n + Sum(d, Tail(ts), k)
\* a column: a reference, a weighted sum of references and a constant, or a constant divided by a reference
Column(d, e) ==
  CASE e.k = "ref" -> Ref(d, e.r)
    [] e.k = "sum" -> [k \in 1..Rows(d) |-> Num(Sum(d, e.ts, k) + 1000 * e.c)]
    [] e.k = "div" -> [k \in 1..Rows(d) |-> LET v == Ref(d, e.r)[k].n IN IF v = 0 THEN None ELSE
          Num(IF v > 0 THEN (1000000 * e.c) \div v ELSE -((1000000 * e.c) \div (-v)))]
    [] e.k = "split" -> Ref(d, e.r)
Derive(d, specs, copy) ==
  LET new == {<<specs[i][1], Column(d, specs[i][2])>> : i \in DOMAIN specs}
      names == {specs[i][1] : i \in DOMAIN specs}
  IN [cols |-> new \cup (IF copy THEN {c \in d.cols : ~(c[1] \in names)} ELSE {}), num |-> <<>>, hasnum |-> FALSE, empty |-> d.empty]
RECURSIVE Concat(_, _)
Concat(ds, name) == IF ds = <<>> THEN <<>>
                    ELSE (IF HasCol(ds[1], name) THEN ColOf(ds[1], name) ELSE [k \in 1..(IF ds[1].cols = {} THEN 0 ELSE Rows(ds[1])) |-> None]) \o Concat(Tail(ds), name)
Join(ds) == LET names == UNION {{c[1] : c \in ds[i].cols} : i \in DOMAIN ds} IN
            [cols |-> {<<n, Concat(ds, n)>> : n \in names}, num |-> <<>>, hasnum |-> FALSE, empty |-> FALSE]
=============================================================================
