--------------------------------- MODULE DVI ---------------------------------
(* The DVI typesetting machine: registers, stack, fonts, virtual fonts, rules, and PyX's grouping specials.  *)
(* Lengths are integers in DVI units; device coordinates point upwards (y = -v).                             *)
EXTENDS Integers, Sequences, FiniteSets
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* ---- fix_words: the standard scaling algorithm in 32-bit arithmetic --------------------------------------
RECURSIVE Norm(_, _)
Norm(z, alpha) == IF z >= 8388608 THEN Norm(z \div 2, 2 * alpha) ELSE <<z, alpha>>
\* the fix_word f (|f| < 2^24) times the font size z
Scaled(f, z) ==
  LET za == Norm(z, 16)
      y == za[1]
      beta == 256 \div za[2]
      u == IF f < 0 THEN f + 16777216 ELSE f
      b1 == u \div 65536
      b2 == (u \div 256) % 256
      b3 == u % 256
      r == ((((b3 * y) \div 256) + (b2 * y)) \div 256 + b1 * y) \div beta
  IN IF f < 0 THEN r - za[2] * y ELSE r
\* ---- fonts ------------------------------------------------------------------------------------------------
\* env: sequence of fonts [id, kind, widths: <<code, fix_word>>, packets: <<code, program>>, locals: <<number, id, relative size>>]
Font(env, id) == env[CHOOSE i \in DOMAIN env : env[i].id = id]
Pick(pairs, k) == pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = k]
HasKey(pairs, k) == \E i \in DOMAIN pairs : pairs[i][1] = k
Width(env, f, c) == Scaled(Pick(Font(env, f.id).widths, c)[2], f.z)
\* ---- groups: affine maps <<a, b, c, d, e, f>>: x' = a x + b y + e, y' = c x + d y + f ------------------------
Id6 == <<1, 0, 0, 1, 0, 0>>
MapX(m, x, y) == m[1] * x + m[2] * y + m[5]
MapY(m, x, y) == m[3] * x + m[4] * y + m[6]
\* outer after inner
Times(o, i) == <<o[1] * i[1] + o[2] * i[3], o[1] * i[2] + o[2] * i[4], o[3] * i[1] + o[4] * i[3], o[3] * i[2] + o[4] * i[4], MapX(o, i[5], i[6]), MapY(o, i[5], i[6])>>
About(a, b, c, d, x, y) == <<a, b, c, d, x - a * x - b * y, y - c * x - d * y>>
Quarter(q, x, y) == CASE q % 4 = 0 -> About(1, 0, 0, 1, x, y) [] q % 4 = 1 -> About(0, -1, 1, 0, x, y) [] q % 4 = 2 -> About(-1, 0, 0, -1, x, y) [] OTHER -> About(0, 1, -1, 0, x, y)
\* ---- the machine --------------------------------------------------------------------------------------------
NoFont == [id |-> "", z |-> 0]
Regs0 == [h |-> 0, v |-> 0, w |-> 0, x |-> 0, y |-> 0, z |-> 0]
G0 == [m |-> Id6, color |-> ""]
\* scale: 0 for DVI units, otherwise the size of the virtual font whose packet is run
Page0(fonts) == [r |-> Regs0, stack |-> <<>>, f |-> NoFont, fonts |-> fonts, scale |-> 0, groups |-> <<G0>>, out |-> <<>>, marks |-> <<>>]
Len2(s, d) == IF s.scale = 0 THEN d ELSE Scaled(d, s.scale)
G(s) == Last(s.groups)
Mark(s, name) == <<name, MapX(G(s).m, s.r.h, -s.r.v), MapY(G(s).m, s.r.h, -s.r.v)>>
PutChar(s, c) == Append(s.out, [k |-> "c", font |-> s.f.id, z |-> s.f.z, c |-> c, m |-> G(s).m, x |-> s.r.h, y |-> -s.r.v, w |-> 0, h |-> 0, color |-> G(s).color])
PutRule(s, a, b) == IF a <= 0 \/ b <= 0 THEN s.out ELSE Append(s.out, [k |-> "r", font |-> "", z |-> 0, c |-> 0, m |-> G(s).m, x |-> s.r.h, y |-> -s.r.v, w |-> b, h |-> a, color |-> G(s).color])
Moves == {"right", "w", "w0", "x", "x0", "down", "y", "y0", "z", "z0"}
Move(s, op, a) ==
  LET d == IF op \in {"w0", "x0", "y0", "z0"} THEN 0 ELSE Len2(s, a[1]) IN
  CASE op = "right" -> [s EXCEPT !.r.h = @ + d]
    [] op = "w" -> [s EXCEPT !.r.w = d, !.r.h = @ + d]
    [] op = "w0" -> [s EXCEPT !.r.h = @ + s.r.w]
    [] op = "x" -> [s EXCEPT !.r.x = d, !.r.h = @ + d]
    [] op = "x0" -> [s EXCEPT !.r.h = @ + s.r.x]
    [] op = "down" -> [s EXCEPT !.r.v = @ + d]
    [] op = "y" -> [s EXCEPT !.r.y = d, !.r.v = @ + d]
    [] op = "y0" -> [s EXCEPT !.r.v = @ + s.r.y]
    [] op = "z" -> [s EXCEPT !.r.z = d, !.r.v = @ + d]
    [] op = "z0" -> [s EXCEPT !.r.v = @ + s.r.z]
RECURSIVE Run(_, _, _)
\* one command: <<op, argument, ...>>
Step(env, s, c) ==
  LET op == c[1] IN
  CASE op \in Moves -> Move(s, op, Tail(c))
    [] op = "nop" -> s
    [] op = "push" -> [s EXCEPT !.stack = Append(@, s.r)]
    [] op = "pop" -> [s EXCEPT !.r = Last(s.stack), !.stack = Front(@)]
    [] op = "fnt" -> [s EXCEPT !.f = [id |-> Pick(s.fonts, c[2])[2], z |-> Pick(s.fonts, c[2])[3]]]
    [] op = "fntdef" -> [s EXCEPT !.fonts = Append(SelectSeq(@, LAMBDA e : e[1] # c[2]), <<c[2], c[3], c[4]>>)]
    [] op = "setrule" -> [s EXCEPT !.out = PutRule(s, Len2(s, c[2]), Len2(s, c[3])), !.r.h = @ + Len2(s, c[3])]
    [] op = "putrule" -> [s EXCEPT !.out = PutRule(s, Len2(s, c[2]), Len2(s, c[3]))]
    [] op \in {"set", "put"} ->
         LET F == Font(env, s.f.id)
             adv == IF op = "set" THEN Width(env, s.f, c[2]) ELSE 0
         IN IF F.kind = "tfm" THEN [s EXCEPT !.out = PutChar(s, c[2]), !.r.h = @ + adv]
            \* a packet runs with cleared registers, its own stack and the first of its own fonts
            ELSE LET loc == [i \in DOMAIN F.locals |-> <<F.locals[i][1], F.locals[i][2], Scaled(F.locals[i][3], s.f.z)>>]
                     in0 == [s EXCEPT !.r = [Regs0 EXCEPT !.h = s.r.h, !.v = s.r.v], !.stack = <<>>, !.fonts = loc, !.scale = s.f.z,
                                      !.f = IF loc = <<>> THEN NoFont ELSE [id |-> loc[1][2], z |-> loc[1][3]]]
                     in1 == Run(env, in0, Pick(F.packets, c[2])[2])
                 IN [s EXCEPT !.out = in1.out, !.groups = in1.groups, !.marks = in1.marks, !.r.h = @ + adv]
    [] op = "color" -> [s EXCEPT !.groups = Append(@, [G(s) EXCEPT !.color = c[2]])]
    [] op = "rotate" -> [s EXCEPT !.groups = Append(@, [G(s) EXCEPT !.m = Times(@, Quarter(c[2], s.r.h, -s.r.v))])]
    [] op = "scale" -> [s EXCEPT !.groups = Append(@, [G(s) EXCEPT !.m = Times(@, About(c[2], 0, 0, c[3], s.r.h, -s.r.v))])]
    [] op = "endgroup" -> [s EXCEPT !.groups = Front(@)]
    [] op = "marker" -> [s EXCEPT !.marks = Append(@, Mark(s, c[2]))]
    [] op = "special" -> s
    [] op = "eps" -> [s EXCEPT !.out = Append(@, [k |-> "e", font |-> "", z |-> 0, c |-> 0, m |-> G(s).m, x |-> s.r.h, y |-> -s.r.v, w |-> c[2], h |-> c[3], color |-> "gray 0"])]
Run(env, s, prog) == IF prog = <<>> THEN s ELSE Run(env, Step(env, s, Head(prog)), Tail(prog))
\* ---- legality -----------------------------------------------------------------------------------------------
Legal(env, s, c) ==
  LET op == c[1] IN
  CASE op = "pop" -> s.stack # <<>>
    [] op = "fnt" -> HasKey(s.fonts, c[2])
    [] op \in {"set", "put"} -> s.f.id # "" /\ HasKey(Font(env, s.f.id).widths, c[2])
    [] op = "endgroup" -> Len(s.groups) > 1
    [] op = "marker" -> \A i \in DOMAIN s.marks : s.marks[i][1] # c[2]
    [] OTHER -> TRUE
=============================================================================
