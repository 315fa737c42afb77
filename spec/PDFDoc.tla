------------------------------- MODULE PDFDoc -------------------------------
(* PDF files as object graphs, and the programs of their content streams.                                  *)
EXTENDS Integers, Sequences, FiniteSets
ToSet(s) == {s[i] : i \in DOMAIN s}
Unique(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
\* ---- object graph: xref and heads are sequences of <<number, offset>> -------------------------------
Numbers(x) == {x[i][1] : i \in DOMAIN x}
XrefGood(e) == /\ ToSet(e.xref) = ToSet(e.heads)
               /\ Cardinality(Numbers(e.xref)) = Len(e.xref)
               /\ Numbers(e.xref) = 1..(e.size - 1)
               /\ Len(e.heads) = Len(e.xref)
\* which kind of object a dictionary entry has to refer to
NeedKind(key) == CASE key = "Pages" -> {"Pages"} [] key = "Parent" -> {"Pages", "Field"} [] key = "Kids" -> {"Page", "Pages", "Annot"}
                 [] key = "Contents" -> {"Stream"} [] key = "Font" -> {"Font"} [] key = "XObject" -> {"XObject"}
                 [] key = "ExtGState" -> {"ExtGState"} [] key = "Pattern" -> {"Pattern"} [] key = "Shading" -> {"Shading"}
                 [] key = "FontDescriptor" -> {"FontDescriptor"} [] key = "FontFile" -> {"Stream"} [] key = "Encoding" -> {"Encoding"}
                 [] key = "SMask" -> {"XObject"} [] key = "ColorSpace" -> {"Stream"} [] key = "AcroForm" -> {"Form"} [] key = "Fields" -> {"Annot", "Field"}
                 [] key = "Annots" -> {"Array"} [] key = "N" -> {"XObject"} [] key = "Off" -> {"XObject"} [] OTHER -> {}
\* ---- content streams: page level, text objects, paths --------------------------------------------------
Arity == [q |-> 0, Q |-> 0, cm |-> 6, w |-> 1, J |-> 1, j |-> 1, M |-> 1, d |-> 2, gs |-> 1, m |-> 2, l |-> 2, c |-> 6, h |-> 0, re |-> 4,
          S |-> 0, s |-> 0, f |-> 0, B |-> 0, b |-> 0, n |-> 0, W |-> 0, BT |-> 0, ET |-> 0, Tf |-> 2, Td |-> 2, Tm |-> 6, TL |-> 1, Tj |-> 1, TJ |-> 1,
          g |-> 1, G |-> 1, rg |-> 3, RG |-> 3, k |-> 4, K |-> 4, cs |-> 1, scn |-> 1, sh |-> 1, Do |-> 1, BMC |-> 1, EMC |-> 0]
Base(op) == CASE op = "f*" -> "f" [] op = "B*" -> "B" [] op = "b*" -> "b" [] op = "W*" -> "W" [] op = "'" -> "Tj" [] OTHER -> op
Known(op) == Base(op) \in DOMAIN Arity
GS0 == [cs |-> "Gray", font |-> ""]
Start == [q |-> <<>>, gs |-> GS0, text |-> FALSE, path |-> 0, clip |-> FALSE, uses |-> <<>>, mc |-> 0]
PathOps == {"m", "l", "c", "h", "re"}
PaintOps == {"S", "s", "f", "B", "b", "n"}
TextOnly == {"Td", "Tm", "Tj", "TJ"}
PageOnly == {"q", "Q", "cm", "Do", "sh", "BT"}
StateOps == {"w", "J", "j", "M", "d", "gs", "g", "G", "rg", "RG", "k", "K", "cs", "scn", "Tf", "TL", "BMC", "EMC"}
\* res: declared resources, sequence of <<category, name>>; e: [op, n operands, name (of the resource) or ""]
Legal(s, res, e) ==
  LET o == Base(e.op)
      has(c) == <<c, e.name>> \in res
  IN << <<Known(e.op), "unknown-operator">>,
        <<e.n = Arity[o], "operand-count">>,
        <<(s.path > 0) => (o \in PathOps \cup PaintOps \cup {"W"}), "operator-inside-path">>,
        <<o \in {"l", "c", "h"} => s.path > 0, "no-current-point">>,
        <<o \in PaintOps => s.path > 0, "paints-nothing">>,
        <<o = "W" => s.path > 0, "clip-without-path">>,
        <<s.clip => o \in PaintOps, "operator-after-clip">>,
        <<s.text => o \in TextOnly \cup StateOps \cup {"ET"}, "operator-inside-text">>,
        <<o \in TextOnly \cup {"ET"} => s.text, "operator-outside-text">>,
        <<o = "Q" => s.q # <<>>, "restore-without-save">>,
        <<o = "EMC" => s.mc > 0, "marked-content">>,
        <<o = "Tf" => has("Font"), "undeclared-font">>,
        <<o = "Do" => has("XObject"), "undeclared-xobject">>,
        <<o = "gs" => has("ExtGState"), "undeclared-extgstate">>,
        <<o = "sh" => has("Shading"), "undeclared-shading">>,
        <<o = "cs" => e.name = "Pattern", "unknown-colorspace">>,
        <<o = "scn" => s.gs.cs = "Pattern", "pattern-in-colorspace">>,
        <<o = "scn" => has("Pattern"), "undeclared-pattern">>,
        <<o \in {"Tj", "TJ"} => s.gs.font # "", "text-without-font">> >>
After(s, e) ==
  LET o == Base(e.op)
      u == IF o \in {"Tf", "Do", "gs", "sh", "scn"} THEN Append(s.uses, <<o, e.what>>) ELSE s.uses
      s1 == [s EXCEPT !.uses = u]
  IN CASE o = "q" -> [s1 EXCEPT !.q = <<s.gs>> \o s.q]
       [] o = "Q" -> [s1 EXCEPT !.q = Tail(s.q), !.gs = Head(s.q)]
       [] o = "BT" -> [s1 EXCEPT !.text = TRUE]
       [] o = "ET" -> [s1 EXCEPT !.text = FALSE]
       [] o \in {"m", "re"} -> [s1 EXCEPT !.path = 1]
       [] o \in PaintOps -> [s1 EXCEPT !.path = 0, !.clip = FALSE]
       [] o = "W" -> [s1 EXCEPT !.clip = TRUE]
       [] o = "Tf" -> [s1 EXCEPT !.gs.font = e.name]
       [] o = "cs" -> [s1 EXCEPT !.gs.cs = "Pattern"]
       [] o = "g" -> [s1 EXCEPT !.gs.cs = "Gray"]
       [] o = "rg" -> [s1 EXCEPT !.gs.cs = "RGB"]
       [] o = "k" -> [s1 EXCEPT !.gs.cs = "CMYK"]
       [] o = "BMC" -> [s1 EXCEPT !.mc = s.mc + 1]
       [] o = "EMC" -> [s1 EXCEPT !.mc = s.mc - 1]
       [] OTHER -> s1
Complete(s) == s.q = <<>> /\ ~s.text /\ s.path = 0 /\ ~s.clip /\ s.mc = 0
=============================================================================
