------------------------------ MODULE Messages ------------------------------
(* The output of TeX as a sequence of passages of known kinds, and what parsers of that output make of it. The result of a parser: *)
(* [ok, keep (positions of the passages left, in order), warns (positions of the passages reported)].                               *)
EXTENDS Integers, Sequences, FiniteSets
Kinds == {"text", "file", "quoted file", "file with text", "nested files", "missing file", "def", "quoted def", "missing def", "eps", "quoted eps", "missing eps",
          "no aux", "no ./aux", "no nav", "no toc", "hbox", "vbox", "hbox and error", "font", "package", "rerun", "no bbl", "error", "banner", "scroll", "note", "aux file", "log"}
Parsers == {"load", "load_def", "load_graphics", "no_aux", "no_nav", "no_toc", "box_warning", "font_warning", "package_warning", "rerun_warning", "nobbl_warning", "custom", "ignore", "warn", "start", "end"}
\* passages each parser understands
Owns(p) == CASE p = "load" -> {"file", "quoted file", "file with text", "nested files", "def", "quoted def", "aux file"}
             [] p = "load_def" -> {"def", "quoted def"}
             [] p = "load_graphics" -> {"eps", "quoted eps"}
             [] p = "no_aux" -> {"no aux", "no ./aux"} [] p = "no_nav" -> {"no nav"} [] p = "no_toc" -> {"no toc"}
             [] p = "box_warning" -> {"hbox", "vbox"} [] p = "font_warning" -> {"font"} [] p = "package_warning" -> {"package"}
             [] p = "rerun_warning" -> {"rerun"} [] p = "nobbl_warning" -> {"no bbl"} [] p = "custom" -> {"text"}
             [] p = "end" -> {"log", "note", "aux file"}
             [] p \in {"ignore", "warn"} -> Kinds
             [] OTHER -> {}
\* passages which look like what a parser understands, but are not: it then leaves everything
Blocks(p) == CASE p = "load" -> {"missing file", "missing def", "hbox", "hbox and error", "vbox", "font", "package", "rerun", "banner", "note"}
               [] p = "load_def" -> {"missing def"} [] p = "load_graphics" -> {"missing eps"} [] OTHER -> {}
Reports(p) == p \in {"box_warning", "font_warning", "package_warning", "rerun_warning", "nobbl_warning", "custom"}
Positions(s, kinds, from) == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : i >= from /\ s[i] \in kinds)
First(s, kind) == CHOOSE i \in DOMAIN s : s[i] = kind /\ \A j \in 1..i - 1 : s[j] # kind
Has(s, kinds) == \E i \in DOMAIN s : s[i] \in kinds
All(s) == [i \in DOMAIN s |-> i]
Count(s, kind) == Cardinality({i \in DOMAIN s : s[i] = kind})
Parse(p, s) ==
  IF p = "start" THEN IF Has(s, {"banner"}) /\ Has(s, {"scroll"}) THEN [ok |-> TRUE, keep |-> Positions(s, Kinds, First(s, "scroll") + 1), warns |-> <<>>]
                      ELSE [ok |-> FALSE, keep |-> <<>>, warns |-> <<>>]
  ELSE IF p = "end" /\ ~Has(s, {"log"}) THEN [ok |-> FALSE, keep |-> <<>>, warns |-> <<>>]
  ELSE IF Has(s, Blocks(p)) THEN [ok |-> TRUE, keep |-> All(s), warns |-> <<>>]
  ELSE [ok |-> TRUE, keep |-> Positions(s, Kinds \ Owns(p), 1), warns |-> IF Reports(p) THEN Positions(s, Owns(p), 1) ELSE IF p = "warn" THEN All(s) ELSE <<>>]
\* the log message is the last of its kind
Sensible(p, s) == p = "end" => Count(s, "log") <= 1
\* several parsers one after the other: the passages left, or a refusal
RECURSIVE ParseAll(_, _, _)
ParseAll(ps, s, left) == IF ps = <<>> THEN [ok |-> TRUE, keep |-> left]
                         ELSE LET r == Parse(ps[1], [i \in DOMAIN left |-> s[left[i]]]) IN
                              IF ~r.ok THEN [ok |-> FALSE, keep |-> <<>>] ELSE ParseAll(Tail(ps), s, [i \in DOMAIN r.keep |-> left[r.keep[i]]])
=============================================================================
