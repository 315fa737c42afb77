------------------------------- MODULE Tokens -------------------------------
(* Reading text token by token. A text is a sequence of characters: separators (blank, tab, line ends), characters which start *)
(* a token wherever they are (delimiters of PostScript), "%" (begins a comment up to the line end), and regular ones.          *)
EXTENDS Integers, Sequences
LineEnds == {"\n", "\r"}
IsSep(c) == c \in {" ", "\t"} \cup LineEnds
IsStart(c) == c \in {"(", ")", "<", ">", "[", "]", "{", "}", "/", "%"}
RECURSIVE Skip(_, _), InComment(_, _), TokenEnd(_, _)
InComment(s, p) == IF p > Len(s) THEN p ELSE IF s[p] \in LineEnds THEN Skip(s, p) ELSE InComment(s, p + 1)
\* first position of the next token
Skip(s, p) == IF p > Len(s) THEN p ELSE IF IsSep(s[p]) THEN Skip(s, p + 1) ELSE IF s[p] = "%" THEN InComment(s, p) ELSE p
TokenEnd(s, p) == IF p > Len(s) \/ IsSep(s[p]) \/ IsStart(s[p]) THEN p ELSE TokenEnd(s, p + 1)
\* the next token: [from, to (behind it), next (where reading continues)]; from > Len(s): there is none
Token(s, p) == LET f == Skip(s, p) IN
               IF f > Len(s) THEN [from |-> f, to |-> f, next |-> f]
               ELSE LET t == TokenEnd(s, f + 1) IN [from |-> f, to |-> t, next |-> IF t <= Len(s) /\ IsSep(s[t]) THEN t + 1 ELSE t]
RECURSIVE AllTokens(_, _)
AllTokens(s, p) == LET t == Token(s, p) IN IF t.from > Len(s) THEN <<>> ELSE <<t>> \o AllTokens(s, t.next)
=============================================================================
