------------------------------- MODULE EPSFile -------------------------------
(* Which bounding box an EPS file declares (structured comments, line by line) and where an included file goes. *)
EXTENDS Frac, FiniteSets
\* a line: [k |-> kind, b |-> number of a box (0 if none)]
\*   magic, bb, bad (a malformed declaration), atend (deferred to the trailer), comment (any other structured comment), endcomments,
\*   code (no comment), plain (a comment which is not structured), doc / enddoc (brackets of an embedded document), data (embedded data), trailer
Start == [ph |-> "start", box |-> 0, nest |-> 0]
Refused == [ph |-> "refused", box |-> 0, nest |-> 0]
LineStep(s, t) ==
  CASE s.ph = "start" -> IF t.k = "magic" THEN [s EXCEPT !.ph = "header"] ELSE Refused
    \* the first declaration of the header counts
    [] s.ph = "header" -> (CASE t.k = "bb" -> [s EXCEPT !.ph = "found", !.box = t.b]
                             [] t.k = "bad" -> Refused
                             [] t.k = "atend" -> [s EXCEPT !.ph = "deferred"]
                             [] t.k \in {"endcomments", "code"} -> Refused
                             [] OTHER -> s)
    [] s.ph = "deferred" -> IF t.k \in {"endcomments", "code"} THEN [s EXCEPT !.ph = "body"] ELSE s
    \* documents and data in the body are opaque
    [] s.ph = "body" -> (CASE t.k = "doc" -> [s EXCEPT !.nest = @ + 1]
                           [] t.k = "enddoc" -> [s EXCEPT !.nest = @ - 1]
                           [] t.k = "trailer" /\ s.nest = 0 -> [s EXCEPT !.ph = "trailer"]
                           [] OTHER -> s)
    \* the last declaration of the trailer counts
    [] s.ph = "trailer" -> (CASE t.k = "bb" -> [s EXCEPT !.box = t.b]
                              [] t.k = "bad" -> Refused
                              [] OTHER -> s)
    [] OTHER -> s
\* the declared box when the file ends; 0: there is none
Declared(s) == IF s.ph \in {"found", "trailer"} THEN s.box ELSE 0
Legal(s, t) ==
  CASE s.ph = "start" -> t.k \in {"magic", "code", "plain"}
    [] s.ph \in {"header", "deferred"} -> t.k \in {"bb", "bad", "atend", "comment", "endcomments", "code"}
    [] s.ph = "body" -> t.k \in {"bb", "comment", "code", "plain", "doc", "data", "trailer"} \/ (t.k = "enddoc" /\ s.nest > 0)
    [] s.ph = "trailer" -> t.k \in {"bb", "bad", "comment", "plain"}
    [] s.ph = "found" -> t.k \in {"bb", "bad", "atend", "endcomments", "trailer", "code"}
    [] OTHER -> FALSE
----
\* inclusion: box <<llx, lly, urx, ury>>; position, width, height, scale fractions (<<>>: not given), alignment v \in {"b", "c", "t"}, h \in {"l", "c", "r"}
ScaleX(b, w, h, s) == IF w # <<>> THEN DivF(w, I2F(b[3] - b[1])) ELSE IF h # <<>> THEN DivF(h, I2F(b[4] - b[2])) ELSE IF s # <<>> THEN s ELSE I2F(1)
ScaleY(b, w, h, s) == IF h # <<>> THEN DivF(h, I2F(b[4] - b[2])) ELSE IF w # <<>> THEN DivF(w, I2F(b[3] - b[1])) ELSE IF s # <<>> THEN s ELSE I2F(1)
Shift(a, ext) == IF a \in {"b", "l"} THEN I2F(0) ELSE IF a = "c" THEN DivF(ext, I2F(2)) ELSE ext
\* the map of the file's coordinates: <<scale x, scale y, shift x, shift y>>
Placed(b, p) ==
  LET sx == ScaleX(b, p.w, p.h, p.s)
      sy == ScaleY(b, p.w, p.h, p.s)
      x == SubF(p.x, Shift(p.ha, MulF(sx, I2F(b[3] - b[1]))))
      y == SubF(p.y, Shift(p.va, MulF(sy, I2F(b[4] - b[2]))))
  IN <<sx, sy, IF p.tb THEN SubF(x, MulF(sx, I2F(b[1]))) ELSE x, IF p.tb THEN SubF(y, MulF(sy, I2F(b[2]))) ELSE y>>
ImageX(m, x) == AddF(MulF(m[1], I2F(x)), m[3])
ImageY(m, y) == AddF(MulF(m[2], I2F(y)), m[4])
Image(m, b) == <<ImageX(m, b[1]), ImageY(m, b[2]), ImageX(m, b[3]), ImageY(m, b[4])>>
=============================================================================
