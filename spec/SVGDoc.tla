-------------------------------- MODULE SVGDoc --------------------------------
(* SVG documents: which elements may contain which, identifiers, references and embedded fonts. *)
EXTENDS Integers, Sequences, FiniteSets
ToSet(s) == {s[i] : i \in DOMAIN s}
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Graphic == {"g", "path", "image", "text"}
Children == [svg |-> Graphic \cup {"defs"}, defs |-> {"clipPath", "pattern", "font"}, g |-> Graphic \cup {"embedded"}, clipPath |-> {"path"},
             pattern |-> Graphic, font |-> {"font-face", "glyph"}, text |-> {"tspan"}, path |-> {}, image |-> {}, tspan |-> {}, glyph |-> {}, embedded |-> {}]
MayContain(p, c) == p \in DOMAIN Children /\ c \in Children[p]
Required == [svg |-> {"version", "fill"}, defs |-> {}, g |-> {}, clipPath |-> {"id"}, pattern |-> {"id", "patternUnits", "viewBox", "width", "height"}, font |-> {},
             text |-> {"x", "y", "font-size", "font-family"}, path |-> {"d"}, image |-> {"x", "y", "width", "height", "href"}, tspan |-> {"dx"},
             glyph |-> {"unicode", "d", "horiz-adv-x"}, embedded |-> {}]
Presentation == {"fill", "stroke", "stroke-width", "stroke-linecap", "stroke-linejoin", "stroke-miterlimit", "stroke-dasharray", "stroke-dashoffset", "fill-rule", "fill-opacity", "stroke-opacity", "opacity", "transform", "clip-path"}
Optional == [svg |-> Presentation \cup {"viewBox", "x", "y", "width", "height"}, defs |-> {}, g |-> Presentation, clipPath |-> {}, pattern |-> {"patternTransform"}, font |-> {},
             text |-> Presentation, path |-> Presentation \cup {"clip-rule"}, image |-> {"transform", "preserveAspectRatio"}, tspan |-> {}, glyph |-> {}, embedded |-> {}]
AttrsFit(n, as) == IF n = "font-face" THEN as = {"font-family"} ELSE Required[n] \subseteq as /\ as \subseteq (Required[n] \cup Optional[n])
\* the kind of element an attribute refers to
Wanted(a) == IF a = "clip-path" THEN "clipPath" ELSE "pattern"
=============================================================================
