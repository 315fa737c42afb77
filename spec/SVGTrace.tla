------------------------------ MODULE SVGTrace ------------------------------
(* One trace per SVG file: its elements in document order.                                              *)
EXTENDS TraceLib, SVGDoc
VARIABLES tid, l, st, err
S0 == [open |-> <<>>, ids |-> {}, refs |-> {}, glyphs |-> {}, fonts |-> {}, font |-> <<>>, images |-> <<>>, patterns |-> <<>>, texts |-> <<>>, pats |-> {}, need |-> {}, done |-> FALSE]
InDefs(s) == Len(s.open) > 1 /\ s.open[2] = "defs"
Start(s, e) ==
  LET p == IF s.open = <<>> THEN "" ELSE Last(s.open)
      s1 == [s EXCEPT !.open = Append(@, e.name),
                      !.ids = IF e.id = "" THEN @ ELSE @ \cup {<<e.id, e.name>>},
                      !.refs = @ \cup {<<e.refs[i][2], Wanted(e.refs[i][1])>> : i \in DOMAIN e.refs},
                      !.fonts = IF e.name = "font-face" THEN @ \cup {e.family} ELSE @,
                      !.font = IF e.name = "font" THEN <<>> ELSE IF e.name = "font-face" THEN <<e.family>> ELSE @,
                      !.glyphs = IF e.name = "glyph" /\ s.font # <<>> THEN @ \cup {<<s.font[1], e.chars[1], e.what>>} ELSE @,
                      !.pats = IF e.name = "pattern" THEN @ \cup {<<e.id, e.what>>} ELSE @]
  IN Clauses(s1, << <<e.ns, "namespace">>,
                    <<(s.open = <<>> /\ e.name = "svg" /\ ~s.done) \/ MayContain(p, e.name), "element-nesting">>,
                    <<e.name \in DOMAIN Required \/ e.name = "font-face", "unknown-element">>,
                    <<AttrsFit(e.name, ToSet(e.attrs)), "attributes">>,
                    <<e.bad = <<>>, "attribute-value">>,
                    <<e.id = "" \/ \A x \in s.ids : x[1] # e.id, "identifier-twice">>,
                    <<e.name = "font-face" => e.family \notin s.fonts, "font-twice">>,
                    <<e.name = "glyph" => Len(e.chars) = 1 /\ s.font # <<>> /\ \A g \in s.glyphs : g[1] = s.font[1] => g[2] # e.chars[1], "glyph-twice">> >>)
End(s, e) == IF s.open = <<>> \/ Last(s.open) # e.name THEN Bad(s, "element-end") ELSE Ok([s EXCEPT !.open = Front(@), !.done = @ \/ Len(s.open) = 1])
\* a text in units of 1/1000: the transformation [1 0 c 1 e f] slants about its own position
Slanted(e) == LET m == e.matrix IN
  IF m = <<>> THEN e.slant = 0
  ELSE Len(m) = 6 /\ m[1] = 1000 /\ m[2] = 0 /\ m[4] = 1000 /\ m[3] = -e.slant /\ m[6] = 0 /\ LET d == m[3] * e.y + 1000 * m[5] IN d < 3000 /\ d > -3000
Need(s, e) == [s EXCEPT !.need = @ \cup {<<e.family, e.chars[i]>> : i \in DOMAIN e.chars}]
\* a text with the glyphs its characters select
Resolved(s, t) == <<t[1], t[2], t[3], t[4], [i \in DOMAIN t[5] |-> LET G == {g \in s.glyphs : g[1] = t[1] /\ g[2] = t[5][i]} IN IF G = {} THEN "?" ELSE (CHOOSE g \in G : TRUE)[3]]>>
TStep(s, e) ==
  CASE e.k = "failed" -> Bad(s, "not-readable")
    [] e.k = "start" -> Start(s, e)
    [] e.k = "end" -> End(s, e)
    [] e.k = "image" -> Clauses(IF InDefs(s) THEN s ELSE [s EXCEPT !.images = Append(@, e.what)], << <<~InDefs(s) \/ e.what # "unknown-image", "image-data">> >>)
    [] e.k = "use" -> Ok(IF InDefs(s) THEN s ELSE [s EXCEPT !.patterns = Append(@, e.id)])
    [] e.k = "text" -> Clauses(IF InDefs(s) THEN Need(s, e) ELSE [Need(s, e) EXCEPT !.texts = Append(@, <<e.family, e.size, e.opacity, e.slant, e.chars>>)],
                               << <<Slanted(e), "slant">> >>)
    [] e.k = "finish" ->
         Clauses(s, << <<s.done, "incomplete-file">>,
                       <<\A r \in s.refs : r \in s.ids, "dangling-reference">>,
                       <<\A x \in s.need : x[1] \in s.fonts, "undefined-font">>,
                       <<s.need \subseteq {<<g[1], g[2]>> : g \in s.glyphs}, "undefined-glyph">>,
                       <<\A x \in s.ids : x \in s.refs, "definition-without-use">>,
                       <<s.images = e.images, "wrong-image">>,
                       <<\A i \in DOMAIN s.patterns : \E p \in s.pats : p[1] = s.patterns[i], "unknown-pattern">>,
                       <<~e.checkpatterns \/ [i \in DOMAIN s.patterns |-> (CHOOSE p \in s.pats : p[1] = s.patterns[i])[2]] = e.patterns, "wrong-pattern">>,
                       <<\A p, q \in s.pats : p[2] = q[2] => p = q, "pattern-defined-twice">>,
                       <<IF e.texts THEN [i \in DOMAIN s.texts |-> Resolved(s, s.texts[i])] = e.shown ELSE s.texts = <<>>, "wrong-text">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = S0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
