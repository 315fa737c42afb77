----------------------------- MODULE TrafoTrace -----------------------------
(* Histories of transformations in four registers (vectors in tenths of points). *)
EXTENDS TraceLib, Affine
VARIABLES tid, l, st, err
TInit(t) == << AffId, AffId, AffId, AffId >>
Turn(k) == CASE k % 4 = 0 -> <<1, 0, 0, 1>> [] k % 4 = 1 -> <<0, 1, -1, 0>> [] k % 4 = 2 -> <<-1, 0, 0, -1>> [] OTHER -> <<0, -1, 1, 0>>
\* mirroring at the line with direction 45 k degrees
Mirror(k) == CASE k % 4 = 0 -> <<1, 0, 0, -1>> [] k % 4 = 1 -> <<0, 1, 1, 0>> [] k % 4 = 2 -> <<-1, 0, 0, 1>> [] OTHER -> <<0, -1, -1, 0>>
Lin(m) == m \o <<0, 0>>
\* the linear map m around the fixed point c (<<>>: the origin)
About(m, c) == IF c = <<>> THEN Lin(m)
               ELSE m \o <<c[1] - m[1] * c[1] - m[3] * c[2], c[2] - m[2] * c[1] - m[4] * c[2]>>
\* shearing by a along the direction 90 k degrees
Slant(a, k) == AffLin(AffMul(Lin(Turn(k)), AffMul(<<1, 0, a, 1, 0, 0>>, Lin(Turn(-k + 4)))))
Unit(e) == CASE e.op = "rotate" -> About(Turn(e.k), e.c)
             [] e.op = "scale" -> About(<<e.a[1], 0, 0, e.a[2]>>, e.c)
             [] e.op = "slant" -> About(Slant(e.a[1], e.k), e.c)
             [] e.op = "mirror" -> Lin(Mirror(e.k))
             [] e.op = "translate" -> <<1, 0, 0, 1>> \o e.c
             [] e.op = "make" -> e.a
             [] OTHER -> <<>>
\* adjugate: the inverse times the determinant
Adj(m) == LET d == AffDet(m) i == <<m[4], -m[2], -m[3], m[1]>>
          IN i \o <<-(i[1] * m[5] + i[3] * m[6]), -(i[2] * m[5] + i[4] * m[6])>>
InvOk(m, e) == [j \in 1..6 |-> e.res[j]] = Adj(m)
New(s, e) == CASE e.how = "new" -> Unit(e)
               [] e.how = "chain" -> AffMul(Unit(e), s[e.x])
               [] e.how = "mul" -> AffMul(s[e.x], s[e.y])
               [] e.how = "inverse" -> Adj(s[e.x])
               [] OTHER -> s[e.z]
Flip(p) == <<p[1], -p[2]>>
TStep(s, e) ==
  LET n == IF e.how = "query" \/ (e.how = "inverse" /\ AffDet(s[e.x]) # 1) THEN s ELSE [s EXCEPT ![e.z] = New(s, e)] m == s[e.x]
      ps == [i \in DOMAIN e.pts |-> AffAp(m, e.pts[i])]
  IN Clauses(n, << <<(e.how = "inverse" /\ AffDet(m) = 0) = ~e.ok, "refused">>,
                   <<(e.how = "inverse" /\ e.ok) => InvOk(m, e), "inverse">>,
                   <<(e.how = "query" /\ e.op \in {"apply", "apply_pt", "path", "deform", "normpath"}) => e.res = ps, e.op>>,
                   <<(e.how = "query" /\ e.op \in {"ps", "pdf", "str"}) => e.res = m, e.op>>,
                   <<(e.how = "query" /\ e.op = "svg") => e.res = <<m[1], -m[2], -m[3], m[4], m[5], -m[6]>>, e.op>>,
                   <<e.obs[e.z] = n[e.z], "result">>,
                   <<e.obs = n, "other-changed">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = TInit(Traces[i]) /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
