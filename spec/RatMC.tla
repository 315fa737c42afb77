------------------------------- MODULE RatMC -------------------------------
(* All small rationals in every notation, all pairs of them, and all pairs of short tick lists.     *)
EXTENDS Rat, FiniteSets, TLC, Json
CONSTANTS Mode, Big
VARIABLE c
Signs == {"", "-", "+"}
Decs == [sign : Signs, int : {0, 1, 7, 12}, frac : {0, 5}, fl : {0, 1, 2}, e : -2..2]
Plain(x) == ~(x.fl = 0 /\ x.frac # 0)
Some(S) == {x \in S : Plain(x)}
Few == {x \in Some(Decs) : x.sign # "+" /\ (x.e = 0 \/ x.fl = 0) /\ x.int # 12}
Powers == {-2, -1, 1, 2, 3}
\* a construction: notation, operands, power
Con(k, x, y, n, d, p) == [k |-> k, x |-> x, y |-> y, n |-> n, d |-> d, p |-> p]
Z == [sign |-> "", int |-> 0, frac |-> 0, fl |-> 0, e |-> 0]
Ints == IF Big THEN -5..5 ELSE {-4, -3, -1, 0, 1, 2, 3}
Cons == {Con("dec", x, Z, 0, 1, 1) : x \in Some(Decs)}
     \cup {Con("float", x, Z, 0, 1, 1) : x \in Some(Decs)}
     \cup {Con("quot", x, y, 0, 1, 1) : x \in Few, y \in {z \in Few : Dec(z)[1] # 0}}
     \cup {Con("pair", Z, Z, n, d, p) : n \in Ints, d \in Ints \ {0}, p \in Powers}
Base(x) == CASE x.k \in {"dec", "float"} -> Dec(x.x) [] x.k = "quot" -> RDiv(Dec(x.x), Dec(x.y)) [] x.k = "pair" -> Rat(x.n, x.d)
Legal(x) == x.p > 0 \/ Base(x)[1] # 0
Val(x) == RPow(Base(x), x.p)
Pool == {x \in Cons : Legal(x) /\ \/ (x.k = "pair" /\ x.p \in {-1, 1})
                                  \/ (x.k = "dec" /\ x.x.e \in {-1, 0} /\ x.x.int < 2 /\ x.x.sign # "+")
                                  \/ (Big /\ x.k = "quot" /\ x.x.e = 0 /\ x.y.e = 0 /\ x.x.int < 2 /\ x.y.int < 2)}
\* tick lists: for every position absent or a tick with its levels
Pos == <<Rat(-1, 2), Rat(1, 3), Rat(2, 1)>>
Lev == IF Big THEN {<<-1, -1>>, <<-1, 0>>, <<-1, 1>>, <<0, -1>>, <<1, -1>>, <<0, 0>>, <<1, 0>>, <<1, 1>>} ELSE {<<-1, 0>>, <<0, -1>>, <<1, 1>>, <<2, 0>>}
RECURSIVE Build(_, _)
Build(f, i) == IF i > 3 THEN <<>> ELSE (IF f[i] = <<>> THEN <<>> ELSE <<[p |-> Pos[i], t |-> f[i][1], l |-> f[i][2]]>>) \o Build(f, i + 1)
Lists == {Build(f, 1) : f \in [1..3 -> Lev \cup {<<>>}]}
Init == c \in (CASE Mode = "num" -> {[a |-> x] : x \in Cons}
                 [] Mode = "pair" -> {[a |-> x, b |-> y] : x \in Pool, y \in Pool}
                 [] Mode = "merge" -> {[a |-> x, b |-> y] : x \in Lists, y \in Lists})
Next == FALSE /\ UNCHANGED c
Law == CASE Mode = "num" -> ~Legal(c.a) \/ Val(c.a)[2] > 0
         [] Mode = "pair" -> LET v == Val(c.a) w == Val(c.b) IN
              Cardinality({k \in 1..3 : (k = 1 /\ RLess(v, w)) \/ (k = 2 /\ REq(v, w)) \/ (k = 3 /\ RLess(w, v))}) = 1
         [] Mode = "merge" -> /\ Ordered(MergeTicks(c.a, c.b, TRUE))
                              /\ SamePos(MergeTicks(c.a, c.b, TRUE), MergeTicks(c.b, c.a, TRUE))
                              /\ SamePos(MergeTicks(c.a, c.a, TRUE), c.a)
Emit == PrintT("@" \o ToJson(
  CASE Mode = "num" -> [a |-> c.a, v |-> IF Legal(c.a) THEN Val(c.a) ELSE <<0, 0>>]
    [] Mode = "pair" -> LET v == Val(c.a) w == Val(c.b) IN
         [a |-> c.a, b |-> c.b, lt |-> RLess(v, w), eq |-> REq(v, w), mul |-> RMul(v, w), div |-> IF w[1] = 0 THEN <<0, 0>> ELSE RDiv(v, w), abs |-> RAbs(v)]
    [] Mode = "merge" -> [a |-> c.a, b |-> c.b, m |-> MergeTicks(c.a, c.b, TRUE), k |-> MergeTicks(c.a, c.b, FALSE)]))
=============================================================================
