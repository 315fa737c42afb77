------------------------------ MODULE PSTrace ------------------------------
(* One trace per PostScript file, in file order: structure comments, definitions, programs.            *)
EXTENDS TraceLib, PSDoc
VARIABLES tid, l, st, err
S0 == [sec |-> "start", open |-> <<>>, m |-> M0, outer |-> <<>>, defs |-> {}, fonts |-> {}, pages |-> 0, saved |-> FALSE,
       head |-> <<>>, media |-> {}, used |-> {}, shown |-> <<>>, images |-> <<>>, patterns |-> <<>>, meshes |-> <<>>, docs |-> 0, bb |-> <<>>]
Header == {"Creator", "Title", "CreationDate", "BoundingBox", "HiResBoundingBox", "DocumentMedia", "+", "Pages", "PageOrder"}
Once(s, k) == \A i \in DOMAIN s.head : s.head[i] # k
Counted(s) == Len(s.open) > 0 /\ Last(s.open) = "Data"
\* low-resolution boxes (integers) contain the high-resolution box (thousandths) and exceed it by less than a unit
Outward(lo, hi) == /\ lo[1] * 1000 <= hi[1] + 1 /\ lo[1] * 1000 > hi[1] - 1001
                   /\ lo[2] * 1000 <= hi[2] + 1 /\ lo[2] * 1000 > hi[2] - 1001
                   /\ lo[3] * 1000 >= hi[3] - 1 /\ lo[3] * 1000 < hi[3] + 1001
                   /\ lo[4] * 1000 >= hi[4] - 1 /\ lo[4] * 1000 < hi[4] + 1001
Dsc(s, e) ==
  LET k == e.key IN
  CASE k = "!" -> Clauses([s EXCEPT !.sec = "header"], << <<s.sec = "start", "header-not-first">>, <<e.text = (IF e.eps THEN "PS-Adobe-3.0 EPSF-3.0" ELSE "PS-Adobe-3.0"), "header-line">> >>)
    [] k \in Header /\ s.sec = "header" ->
         LET s1 == [s EXCEPT !.head = Append(@, k),
                             !.media = IF k \in {"DocumentMedia", "+"} THEN @ \cup {<<e.text, e.ints>>} ELSE @,
                             !.bb = IF k = "BoundingBox" THEN e.ints ELSE @]
         IN Clauses(s1, << <<k = "+" \/ Once(s, k), "header-comment-twice">>,
                           <<k = "+" => ~Once(s, "DocumentMedia"), "continuation-without-comment">>,
                           <<k \in {"DocumentMedia", "+"} => <<e.text, e.ints>> \notin s.media, "medium-twice">>,
                           <<k = "Pages" => e.ints = <<e.want>>, "number-of-pages">>,
                           <<k = "HiResBoundingBox" => s.bb # <<>> /\ Outward(s.bb, e.ints), "bounding-box-rounding">>,
                           <<k \in {"BoundingBox", "HiResBoundingBox"} => e.valid, "bounding-box-format">> >>)
    [] k = "EndComments" -> Clauses([s EXCEPT !.sec = "defaults"], << <<s.sec = "header", "comments-end">>, <<e.eps \/ ~Once(s, "Pages"), "pages-missing">> >>)
    [] k = "BeginProlog" -> Clauses([s EXCEPT !.sec = "prolog"], << <<s.sec = "defaults", "prolog-begin">> >>)
    [] k = "EndProlog" -> Clauses([s EXCEPT !.sec = IF e.eps THEN "page" ELSE "body", !.m = M0], << <<s.sec = "prolog" /\ s.open = <<>>, "prolog-end">>, <<Balanced(s.m), "prolog-unbalanced">> >>)
    [] k = "Page" -> Clauses([s EXCEPT !.sec = "pagehead", !.pages = @ + 1, !.m = M0], << <<s.sec \in {"body", "pagetrailer"}, "page-begin">>, <<e.ints = <<s.pages + 1>>, "page-ordinal">>, <<e.text = e.label, "page-label">> >>)
    [] k \in {"PageMedia", "PageOrientation", "PageBoundingBox"} /\ s.sec = "pagehead" ->
         Clauses(s, << <<k = "PageMedia" => \E m \in s.media : m[1] = e.text, "medium-undeclared">>, <<k = "PageOrientation" => e.text = e.label, "page-orientation">>,
                       <<k = "PageBoundingBox" => e.valid, "bounding-box-format">> >>)
    [] k = "BeginPageSetup" -> Clauses([s EXCEPT !.sec = "setup"], << <<s.sec = "pagehead", "page-setup">> >>)
    [] k = "EndPageSetup" -> Clauses([s EXCEPT !.sec = "page"], << <<s.sec = "setup", "page-setup">> >>)
    [] k = "PageTrailer" -> Clauses([s EXCEPT !.sec = "pagetrailer"], << <<s.sec = "shown" /\ s.open = <<>>, "page-trailer">> >>)
    [] k = "Trailer" -> Clauses([s EXCEPT !.sec = "trailer"], << <<s.sec \in {"pagetrailer", "body", "shown"} /\ s.open = <<>>, "trailer">>, <<e.eps \/ s.pages = e.want, "pages-written">> >>)
    [] k = "EOF" -> Clauses([s EXCEPT !.sec = "eof"], << <<s.sec = "trailer", "end-of-file">> >>)
    [] k = "Begin" -> Clauses([s EXCEPT !.open = Append(@, e.text)], << <<e.text \in {"Resource", "Data", "Font", "Document"}, "unknown-section">>, <<~Counted(s), "section-inside-data">>,
                                   <<e.text \in {"Resource", "Font"} => s.sec = "prolog" /\ s.open = <<>>, "resource-outside-prolog">>, <<e.text = "Document" => s.sec = "page", "document-outside-page">> >>)
    \* data sections hold the announced number of lines
    [] k = "End" -> IF s.open = <<>> \/ Last(s.open) # e.text THEN Bad(s, "section-nesting")
                    ELSE Clauses([s EXCEPT !.open = Front(@)], << <<e.text = "Data" => e.ints[1] = e.ints[2], "data-line-count">>, <<e.text = "Resource" => Balanced(s.m), "resource-unbalanced">> >>)
    [] OTHER -> Bad(s, "unexpected-comment")
Run(s, e) ==
  LET m1 == [s.m EXCEPT !.stk = @ \o e.push]
      why == IF s.sec \notin {"prolog", "setup", "page"} /\ ~(s.sec = "restored" /\ e.op = "showpage") THEN "code-outside-sections" ELSE OpReason(m1, s.defs, s.fonts, e.op)
      args == Args(m1.stk, e.op)
      m2 == Exec(m1, s.defs, e.op)
      name == args[1][2]
  IN IF why # "" THEN Bad(s, why)
     ELSE CASE e.op = "def" -> Ok([s EXCEPT !.m = m2, !.defs = IF s.sec = "setup" THEN @ ELSE @ \cup {<<name, args[2][1]>>}, !.saved = @ \/ (s.sec = "setup" /\ name = "pgsave")])
            [] e.op = "store" -> Ok([s EXCEPT !.m = m2])
            [] e.op \in {"ReEncodeFont", "ChangeFontMatrix"} -> Ok([s EXCEPT !.m = m2, !.fonts = @ \cup {args[2][2]}])
            [] e.op = "restore" -> IF m2.stk # <<>> \/ m2.gs # <<>> \/ m2.data THEN Bad(s, "page-unbalanced") ELSE Ok([s EXCEPT !.m = m2, !.sec = "restored", !.saved = FALSE])
            [] e.op = "showpage" -> IF s.sec # (IF e.eps THEN "page" ELSE "restored") \/ ~Balanced(m2) THEN Bad(s, "page-unbalanced") ELSE Ok([s EXCEPT !.m = m2, !.sec = "shown"])
            [] e.op = "show" /\ s.outer = <<>> -> Ok([s EXCEPT !.m = m2, !.shown = IF e.what = <<>> THEN @ ELSE IF e.cont THEN Append(Front(@), Last(@) \o SubSeq(e.what, 3, Len(e.what))) ELSE Append(@, e.what)])
            [] e.op = "setpattern" /\ s.outer = <<>> -> Ok([s EXCEPT !.m = m2, !.patterns = Append(@, e.what)])
            [] OTHER -> Ok([s EXCEPT !.m = m2])
Texts(shown) == shown
TStep(s, e) ==
  CASE e.k = "failed" -> Bad(s, "write-refused")
    [] e.k = "dsc" -> Dsc(s, e)
    [] e.k = "op" -> IF e.op = "pgsave" THEN (IF s.saved THEN Ok([s EXCEPT !.m.stk = Append(@, <<"v", "">>)]) ELSE Bad(s, "undefined-name")) ELSE Run(s, e)
    [] e.k = "font" -> Clauses([s EXCEPT !.fonts = @ \cup {e.name}], << <<e.defines = <<e.name>>, "font-name">>, <<e.name \notin s.fonts, "font-defined-twice">>, <<Len(s.open) > 0 /\ Last(s.open) = "Font", "font-outside-section">> >>)
    \* a procedure which draws: an own program starting with its dictionary
    [] e.k = "proc" -> Ok([s EXCEPT !.outer = Append(@, s.m), !.m = Frame(<<<<"d", "">>>>)])
    [] e.k = "endproc" -> IF ~Balanced(s.m) THEN Bad(s, "procedure-unbalanced") ELSE Ok([s EXCEPT !.m = Last(s.outer), !.outer = Front(@)])
    \* inline data: follows the operator which consumes the current file, outside of procedures
    [] e.k = "data" -> IF s.outer # <<>> THEN Bad(s, "inline-data-inside-procedure")
                       ELSE IF ~s.m.data THEN Bad(s, "data-without-reader")
                       ELSE Clauses([s EXCEPT !.m.data = FALSE], << <<e.valid, "data-encoding">> >>)
    [] e.k = "image" -> Clauses(IF s.outer # <<>> THEN s ELSE [s EXCEPT !.images = Append(@, e.what)], << <<e.len = e.need, "image-data-length">> >>)
    [] e.k = "mesh" -> Ok(IF s.outer # <<>> THEN s ELSE [s EXCEPT !.meshes = Append(@, e.what)])
    [] e.k = "junk" -> Bad(s, "scanner-" \o e.why)
    [] e.k = "embedded" -> Clauses(s, << <<e.same, "embedded-document-changed">> >>)
    [] e.k = "end" -> Clauses(s, << <<s.sec = "eof", "incomplete-file">>, <<s.images = e.images, "wrong-image">>, <<s.patterns = e.patterns, "wrong-pattern">>, <<s.meshes = e.meshes, "wrong-mesh">>,
                                    <<~e.texts \/ s.shown = e.shown, "wrong-text">>, <<e.title = e.titlewant, "title">>, <<{x[2] : x \in s.media} = ToSet(e.nmedia), "media">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = S0 /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
