----------------------------- MODULE FontUseTrace -----------------------------
(* F02: texts found in written files. Every text was given as (font, glyphs, position, ...); found are the font    *)
(* its codes refer to, the codes with the encoding in force, the glyphs contained in that font with their programs *)
(* intact (including all they call), and the position of every glyph.                                              *)
EXTENDS TraceLib, FontUse
VARIABLES tid, l, st, err
Near(a, b, t) == AbsV(a - b) <= t
Base(t) == IF t.named THEN t.glyphs ELSE [i \in DOMAIN t.codes |-> t.own[CHOOSE j \in DOMAIN t.owncodes : t.owncodes[j] = t.codes[i]]]
Show(s, e, f) ==
  LET t == [glyphs |-> Base(e.text), size |-> e.text.size, kern |-> e.text.kern, lig |-> e.text.lig, spaced |-> e.text.spaced]
      gs == Glyphs(f, t) o == Starts(f, t) IN
  Clauses(s, << <<e.font = e.text.fname, "font">>,
     <<e.names = gs, "glyphs">>,
     <<e.builtin \/ (\A i \in DOMAIN e.names : e.names[i] \in {e.intact[j] : j \in DOMAIN e.intact}), "not-in-font">>,
     <<Len(e.xs) = Len(gs) /\ \A i \in DOMAIN gs : Near(e.xs[i], e.text.x + o[i], 2 + Len(gs)), "positions">>,
     <<Near(e.y, e.text.y, 2), "baseline">>, <<Near(e.size, 1000 * t.size, 2), "size">>, <<Near(e.slant, e.text.slant, 1), "slant">>,
     <<e.widths = <<>> \/ (Len(e.widths) = Len(gs) /\ \A i \in DOMAIN gs : e.widths[i] = Width(f, gs[i])), "widths">> >>)
\* outlines instead of text: the glyphs of the contours (a composite glyph has several) and where they begin
RECURSIVE Flat(_, _, _)
Flat(f, gs, i) == IF i > Len(gs) THEN <<>> ELSE LET c == f.contours[Index(f, gs[i])] IN [k \in DOMAIN c |-> <<i, c[k]>>] \o Flat(f, gs, i + 1)
PathOf(s, e, f) ==
  LET t == [glyphs |-> Base(e.text), size |-> e.text.size, kern |-> e.text.kern, lig |-> e.text.lig, spaced |-> e.text.spaced]
      gs == Glyphs(f, t) o == Starts(f, t) cs == Flat(f, gs, 1) IN
  Clauses(s, << <<Len(e.starts) = Len(cs), "contours">>,
     <<\A i \in DOMAIN cs : LET y == cs[i][2][2] * t.size IN
          /\ Near(e.starts[i][2], e.text.y + y, 3) /\ Near(e.starts[i][1], e.text.x + o[cs[i][1]] + cs[i][2][1] * t.size + (e.text.slant * y) \div 1000, 3 + Len(gs)), "outlines">> >>)
BoxOf(s, e, f) ==
  LET t == [glyphs |-> Base(e.text), size |-> e.text.size, kern |-> e.text.kern, lig |-> e.text.lig, spaced |-> e.text.spaced]
      gs == Glyphs(f, t)
      lo == f.lows[Index(f, gs[CHOOSE i \in DOMAIN gs : \A j \in DOMAIN gs : f.lows[Index(f, gs[i])] <= f.lows[Index(f, gs[j])]])]
      hi == f.highs[Index(f, gs[CHOOSE i \in DOMAIN gs : \A j \in DOMAIN gs : f.highs[Index(f, gs[i])] >= f.highs[Index(f, gs[j])]])] IN
  Clauses(s, << <<Near(e.box[1], e.text.x, 2) /\ Near(e.box[3], e.text.x + Extent(f, t), 2 + Len(gs)), "box-width">>,
     <<Near(e.box[2], e.text.y + lo * t.size, 2) /\ Near(e.box[4], e.text.y + hi * t.size, 2), "box-height">> >>)
TStep(s, e, t) ==
  IF e.failed # "" THEN Bad(s, "refused")
  ELSE LET f == t.fonts[e.text.font] IN CASE e.k = "show" -> Show(s, e, f) [] e.k = "path" -> PathOf(s, e, f) [] OTHER -> BoxOf(s, e, f)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = 0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1], Traces[tid]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
