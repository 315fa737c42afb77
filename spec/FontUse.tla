------------------------------- MODULE FontUse -------------------------------
(* Text shown with fonts: which glyphs a text consists of and where they go, and what the fonts in a file must    *)
(* contain. Glyphs are names; a font has widths, kerning pairs and ligatures (1/1000 of the size). Positions are   *)
(* in 1/1000 of a point.                                                                                           *)
EXTENDS Integers, Sequences, FiniteSets
AbsV(x) == IF x < 0 THEN -x ELSE x
\* the ligature two neighbours have: the first listed
LigOf(f, a, b) == LET is == {i \in DOMAIN f.ligs : f.ligs[i][1] = a /\ f.ligs[i][2] = b} IN IF is = {} THEN "" ELSE f.ligs[CHOOSE i \in is : \A j \in is : i <= j][3]
RECURSIVE Lig(_, _, _)
\* from left to right, a ligature may take part in the next one
Lig(f, gs, i) == IF i >= Len(gs) THEN gs
  ELSE LET r == LigOf(f, gs[i], gs[i + 1]) IN IF r = "" THEN Lig(f, gs, i + 1) ELSE Lig(f, SubSeq(gs, 1, i - 1) \o <<r>> \o SubSeq(gs, i + 2, Len(gs)), i)
KernOf(f, a, b) == LET is == {i \in DOMAIN f.kerns : f.kerns[i][1] = a /\ f.kerns[i][2] = b} IN IF is = {} THEN 0 ELSE f.kerns[CHOOSE i \in is : TRUE][3]
Index(f, g) == CHOOSE i \in DOMAIN f.names : f.names[i] = g
Width(f, g) == f.widths[Index(f, g)]
\* t: [glyphs, size, kern, lig, spaced (1/1000 pt)]
Glyphs(f, t) == IF t.lig THEN Lig(f, t.glyphs, 1) ELSE t.glyphs
RECURSIVE Offsets(_, _, _, _)
Offsets(f, t, gs, i) == IF i = 1 THEN <<0>>
  ELSE LET o == Offsets(f, t, gs, i - 1) IN
       Append(o, o[i - 1] + Width(f, gs[i - 1]) * t.size + t.spaced + (IF t.kern THEN KernOf(f, gs[i - 1], gs[i]) * t.size ELSE 0))
Starts(f, t) == LET gs == Glyphs(f, t) IN Offsets(f, t, gs, Len(gs))
Extent(f, t) == LET gs == Glyphs(f, t) o == Starts(f, t) IN o[Len(gs)] + Width(f, gs[Len(gs)]) * t.size
=============================================================================
