------------------------------- MODULE Texter -------------------------------
(* The labels of ticks, as sequences of tokens.  A tick is [num, den, lab |-> label level or -1,    *)
(* own |-> TRUE when it carries its own label].  A period is written between the tokens "<" and ">".*)
EXTENDS Integers, Sequences, FiniteSets
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Reduce(n, d) == LET g == GCD(n, d) IN <<n \div g, d \div g>>
Dig == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
D(n) == Dig[n + 1]
Opt(s) == IF s = "" THEN <<>> ELSE <<s>>
RECURSIVE IntDigits(_)
IntDigits(n) == IF n < 10 THEN <<D(n)>> ELSE Append(IntDigits(n \div 10), D(n % 10))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
\* digits in groups of three, counted from the right end
Grouped(ds, sep) == LET n == Len(ds) IN Concat([i \in 1..n |-> <<ds[i]>> \o (IF (n - i) % 3 = 0 /\ i < n THEN Opt(sep) ELSE <<>>)])
\* the digits of r / n for r < n: [d |-> digits, per |-> index of the begin of the period or 0]
RECURSIVE Expand(_, _, _, _)
Expand(r, n, seen, ds) == IF r = 0 THEN [d |-> ds, per |-> 0]
                          ELSE IF \E i \in DOMAIN seen : seen[i] = r THEN [d |-> ds, per |-> CHOOSE i \in DOMAIN seen : seen[i] = r]
                          ELSE Expand((10 * r) % n, n, Append(seen, r), Append(ds, (10 * r) \div n))
FracTokens(x, pad, o) ==
  LET d == x.d \o [i \in 1..(IF x.per = 0 /\ pad > Len(x.d) THEN pad - Len(x.d) ELSE 0) |-> 0]
  IN (IF d = <<>> THEN <<>> ELSE <<o.decimalsep>>)
     \o Concat([i \in DOMAIN d |-> (IF i > 1 /\ (i - 1) % 3 = 0 THEN Opt(o.thousandthpartsep) ELSE <<>>) \o (IF i = x.per THEN <<"<">> ELSE <<>>) \o <<D(d[i])>>])
     \o (IF x.per > 0 THEN <<">">> ELSE <<>>)
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A y \in S : y <= m
\* ticks which get a label from a texter
Wants(t) == t.lab >= 0 /\ ~t.own
\* labels of a decimal texter for a list of numbers <<num, den>> (den > 0)
Dec(o, qs) ==
  LET X == [i \in DOMAIN qs |-> Expand(AbsI(qs[i][1]) % qs[i][2], qs[i][2], <<>>, <<>>)]
      pad == IF o.equalprecision THEN MaxOf({Len(X[i].d) : i \in {j \in DOMAIN qs : X[j].per = 0}}) ELSE 0
  IN [i \in DOMAIN qs |-> Opt(o.prefix) \o (IF qs[i][1] < 0 THEN Opt(o.minus) ELSE Opt(o.plus)) \o Opt(o.infix)
        \o Grouped(IntDigits(AbsI(qs[i][1]) \div qs[i][2]), o.thousandsep) \o FracTokens(X[i], pad, o) \o Opt(o.suffix)]
\* exponential notation: value = sign * man * base^exp with 1 <= man < base
RECURSIVE Mant(_, _, _)
Mant(q, b, e) == IF q[1] >= b * q[2] THEN Mant(Reduce(q[1], q[2] * b), b, e + 1)
                 ELSE IF q[1] < q[2] THEN Mant(Reduce(q[1] * b, q[2]), b, e - 1)
                 ELSE [m |-> q, e |-> e]
Sign(q) == IF q[1] < 0 THEN -1 ELSE 1
Express(q, b) == IF q[1] = 0 THEN [m |-> <<0, 1>>, e |-> 0] ELSE Mant(Reduce(AbsI(q[1]), q[2]), b, 0)
Wide(o, e) == ~(-o.minneg < e /\ e < o.minexp)
\* the labels of the default texter: [exp |-> FALSE, man |-> tokens] or [exp |-> TRUE, man |-> tokens, base, ex |-> tokens]
Default(o, qs) ==
  LET E == [i \in DOMAIN qs |-> Express(qs[i], o.base)]
      any == \E i \in DOMAIN qs : Wide(o, E[i].e)
      want(i) == Wide(o, E[i].e) \/ (o.uniform /\ any /\ qs[i][1] # 0)
      W == [i \in DOMAIN qs |-> want(i)]
      allone == \A i \in DOMAIN qs : W[i] => E[i].m = <<1, 1>>
      skip == [i \in DOMAIN qs |-> W[i] /\ E[i].m = <<1, 1>> /\ (o.skip = "each" \/ (o.skip = "all" /\ allone))]
      mq == [i \in DOMAIN qs |-> IF W[i] THEN <<Sign(qs[i]) * E[i].m[1], E[i].m[2]>> ELSE qs[i]]
      shown == SelectSeq([i \in DOMAIN qs |-> i], LAMBDA i : ~skip[i])
      labels == Dec(o.mantissa, [k \in DOMAIN shown |-> mq[shown[k]]])
      of(i) == labels[CHOOSE k \in DOMAIN shown : shown[k] = i]
      expd == SelectSeq([i \in DOMAIN qs |-> i], LAMBDA i : W[i])
      exps == Dec(o.exponent, [k \in DOMAIN expd |-> <<E[expd[k]].e, 1>>])
      exof(i) == exps[CHOOSE k \in DOMAIN expd : expd[k] = i]
  IN [i \in DOMAIN qs |-> IF W[i] THEN [exp |-> TRUE, skip |-> skip[i], man |-> IF skip[i] THEN (IF Sign(qs[i]) < 0 THEN Opt(o.minusunity) ELSE <<>>) ELSE of(i),
                                        base |-> IntDigits(o.base), ex |-> exof(i)]
                          ELSE [exp |-> FALSE, skip |-> FALSE, man |-> of(i), base |-> <<>>, ex |-> <<>>]]
\* rational labels: [pre, num, den, suf]; den = <<>> when there is no fraction
RECURSIVE Lcm(_)
Lcm(ns) == IF ns = <<>> THEN 1 ELSE LET x == Lcm(Tail(ns)) IN (x * Head(ns)) \div GCD(x, Head(ns))
Ratio(o, qs) ==
  LET R == [i \in DOMAIN qs |-> Reduce(AbsI(qs[i][1]), qs[i][2])]
      L == Lcm([i \in DOMAIN qs |-> R[i][2]])
      F == [i \in DOMAIN qs |-> IF o.equaldenom THEN <<R[i][1] * (L \div R[i][2]), L>> ELSE R[i]]
      numdeco == o.numprefix # "" \/ o.numinfix # "" \/ o.numsuffix # ""
      dendeco == o.denomprefix # "" \/ o.denominfix # "" \/ o.denomsuffix # ""
      deco == o.prefix # "" \/ o.infix # "" \/ o.suffix # ""
      one(q) ==
        LET pm == IF q.neg THEN o.minus ELSE o.plus
            m0 == IF o.minuspos = 0 THEN Opt(pm) ELSE <<>>
            m1 == IF o.minuspos = 1 THEN Opt(pm) ELSE <<>>
            m2 == IF o.minuspos = -1 THEN Opt(pm) ELSE <<>>
            pre == Opt(o.prefix) \o m0 \o Opt(o.infix)
            num == Opt(o.numprefix) \o m1 \o Opt(o.numinfix) \o (IF o.skipnum1 /\ q.n = 1 /\ numdeco THEN <<>> ELSE IntDigits(q.n)) \o Opt(o.numsuffix)
            den == Opt(o.denomprefix) \o m2 \o Opt(o.denominfix) \o IntDigits(q.d) \o Opt(o.denomsuffix)
        IN IF o.skipnum0 /\ q.n = 0 THEN [pre |-> <<>>, num |-> <<"0">>, den |-> <<>>, suf |-> <<>>]
           ELSE IF o.skip1 /\ o.skipdenom1 /\ q.n = 1 /\ q.d = 1 /\ deco /\ m1 = <<>> /\ m2 = <<>> /\ ~numdeco /\ ~dendeco
             THEN [pre |-> pre, num |-> <<>>, den |-> <<>>, suf |-> Opt(o.suffix)]
           ELSE IF o.skipdenom1 /\ q.d = 1 /\ m2 = <<>> /\ ~dendeco THEN [pre |-> pre, num |-> num, den |-> <<>>, suf |-> Opt(o.suffix)]
           ELSE [pre |-> pre, num |-> num, den |-> den, suf |-> Opt(o.suffix)]
  IN [i \in DOMAIN qs |-> one([neg |-> qs[i][1] < 0, n |-> F[i][1], d |-> F[i][2]])]
=============================================================================
