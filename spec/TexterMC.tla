------------------------------ MODULE TexterMC ------------------------------
(* All labels of short tick lists under all option combinations; the labels read back as numbers. *)
EXTENDS Texter, TLC, Json
CONSTANTS Kind, Big
Nums == {-2, -1, 0, 1, 3, 5} \cup (IF Big THEN {22, 1234, -1234567} ELSE {12, 1234})
Dens == {1, 3, 4, 7, 12} \cup (IF Big THEN {8, 11, 1600, 3000} ELSE {6000, 1600})
Qs == {<<n, d>> : n \in Nums, d \in Dens}
PF == {[prefix |-> "", infix |-> "", suffix |-> ""], [prefix |-> "P", infix |-> "I", suffix |-> "S"]}
DecOpts == {[prefix |-> p.prefix, infix |-> p.infix, suffix |-> p.suffix, equalprecision |-> e, decimalsep |-> ".", thousandsep |-> s, thousandthpartsep |-> t, plus |-> pl, minus |-> "-"] :
            p \in PF, e \in BOOLEAN, s \in {"", ","}, t \in {"", "_"}, pl \in {"", "+"}}
Plain == [prefix |-> "", infix |-> "", suffix |-> "", equalprecision |-> FALSE, decimalsep |-> ".", thousandsep |-> "", thousandthpartsep |-> "", plus |-> "", minus |-> "-"]
DefOpts == {[base |-> b, skip |-> s, minusunity |-> "-", minexp |-> m[1], minneg |-> m[2], uniform |-> u, mantissa |-> x, exponent |-> y] :
            b \in {2, 10}, s \in {"never", "each", "all"}, m \in {<<1, 1>>, <<4, 3>>, <<4, 4>>} \cup (IF Big THEN {<<1, 4>>, <<2, 2>>} ELSE {}), u \in BOOLEAN,
            x \in {Plain, [Plain EXCEPT !.equalprecision = TRUE, !.plus = "+"]}, y \in {[Plain EXCEPT !.plus = "+"]} \cup (IF Big THEN {Plain} ELSE {})}
DefQs == {<<0, 1>>, <<1, 1>>, <<-1, 1>>, <<3, 4>>, <<8, 1>>, <<-1, 1000>>, <<25000, 1>>, <<1, 3000>>, <<10000, 1>>} \cup (IF Big THEN {<<-10000, 1>>, <<22, 7>>, <<1, 64>>, <<5, 1>>, <<123456, 1>>} ELSE {})
RatOpts == {[prefix |-> p.prefix, infix |-> p.infix, suffix |-> p.suffix, numprefix |-> n.prefix, numinfix |-> n.infix, numsuffix |-> n.suffix,
             denomprefix |-> d.prefix, denominfix |-> d.infix, denomsuffix |-> d.suffix, plus |-> pl, minus |-> "-", minuspos |-> mp,
             equaldenom |-> e, skip1 |-> s1, skipnum0 |-> s0, skipnum1 |-> sn, skipdenom1 |-> sd] :
            p \in PF, n \in {[prefix |-> "", infix |-> "", suffix |-> ""], [prefix |-> "A", infix |-> "B", suffix |-> ""]}, d \in {[prefix |-> "", infix |-> "", suffix |-> ""], [prefix |-> "", infix |-> "X", suffix |-> "Y"]},
            pl \in {"", "+"}, mp \in {-1, 0, 1}, e \in BOOLEAN, s1 \in BOOLEAN, s0 \in BOOLEAN, sn \in BOOLEAN, sd \in BOOLEAN}
RatQs == {<<n, d>> : n \in {-4, -1, 0, 1, 6}, d \in {1, 4, 6}}
VARIABLES o, qs, done
Init == /\ o \in (CASE Kind = "decimal" -> DecOpts [] Kind = "default" -> DefOpts [] OTHER -> RatOpts)
        /\ qs \in (CASE Kind = "decimal" -> (IF Big THEN {<<a, b>> : a, b \in Qs} ELSE {q \in {<<a, b>> : a, b \in Qs} : (q[1][1] + q[2][1] + q[1][2]) % 3 = 0} \cup {<<>>}) [] Kind = "default" -> {<<a, b>> : a, b \in DefQs} [] OTHER -> ({q \in {<<a, b>> : a, b \in RatQs} : Big \/ (q[1][1] + 2 * q[2][1] + q[1][2] + q[2][2]) % 5 = 0} \cup {<<>>}))
        /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<o, qs>>
\* ---- reading labels back --------------------------------------------------------------------------
IsDigit(t) == \E i \in 1..10 : Dig[i] = t
Val(t) == CHOOSE n \in 0..9 : Dig[n + 1] = t
DigitsOf(ts) == SelectSeq(ts, IsDigit)
RECURSIVE Num(_)
Num(ts) == IF ts = <<>> THEN 0 ELSE 10 * Num(SubSeq(ts, 1, Len(ts) - 1)) + Val(ts[Len(ts)])
RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
At(ts, t) == IF \E i \in DOMAIN ts : ts[i] = t THEN CHOOSE i \in DOMAIN ts : ts[i] = t ELSE Len(ts) + 1
\* the value of the tokens is n/d: digits before the point, before the period, and of the period
ReadBack(ts, q) ==
  LET pt == At(ts, ".") pb == At(ts, "<") pe == At(ts, ">")
      int == Num(DigitsOf(SubSeq(ts, 1, pt - 1)))
      fd == DigitsOf(SubSeq(ts, pt + 1, pb - 1))
      pd == IF pb > Len(ts) THEN <<>> ELSE DigitsOf(SubSeq(ts, pb + 1, pe - 1))
      n == AbsI(q[1]) % q[2]
      f == Len(fd)
      num == IF pd = <<>> THEN Num(fd) ELSE Num(fd) * (P10(Len(pd)) - 1) + Num(pd)
      den == P10(f) * (IF pd = <<>> THEN 1 ELSE P10(Len(pd)) - 1)
      r == Reduce(n, q[2])
      g == GCD(num, den)
  IN /\ int = AbsI(q[1]) \div q[2]
     /\ (f + Len(pd) <= 9 => <<num \div g, den \div g>> = r)
     /\ (\E i \in DOMAIN ts : ts[i] = "-") = (q[1] < 0)
DecLaws == done /\ Kind = "decimal" => LET L == Dec(o, qs) IN
   /\ \A i \in DOMAIN qs : ReadBack(L[i], qs[i])
   /\ o.equalprecision => \A i, j \in DOMAIN qs : (At(L[i], "<") > Len(L[i]) /\ At(L[j], "<") > Len(L[j])) =>
         Len(DigitsOf(SubSeq(L[i], At(L[i], "."), Len(L[i])))) = Len(DigitsOf(SubSeq(L[j], At(L[j], "."), Len(L[j]))))
DefLaws == done /\ Kind = "default" => LET L == Default(o, qs) IN \A i \in DOMAIN qs :
   IF ~L[i].exp THEN ReadBack(L[i].man, qs[i])
   ELSE LET e == Num(DigitsOf(L[i].ex)) * (IF \E k \in DOMAIN L[i].ex : L[i].ex[k] = "-" THEN -1 ELSE 1)
            RECURSIVE Pw(_)
            Pw(k) == IF k = 0 THEN 1 ELSE o.base * Pw(k - 1)
            m == IF e >= 0 THEN Reduce(AbsI(qs[i][1]), qs[i][2] * Pw(e)) ELSE Reduce(AbsI(qs[i][1]) * Pw(-e), qs[i][2])
        IN IF L[i].skip THEN m = <<1, 1>> /\ (L[i].man = <<"-">>) = (qs[i][1] < 0)
           ELSE ReadBack(L[i].man, <<Sign(qs[i]) * m[1], m[2]>>)
Emit == done => PrintT("@" \o ToJson([o |-> o, qs |-> qs, l |-> CASE Kind = "decimal" -> Dec(o, qs) [] Kind = "default" -> Default(o, qs) [] OTHER -> Ratio(o, qs)]))
=============================================================================
