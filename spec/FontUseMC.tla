------------------------------ MODULE FontUseMC ------------------------------
(* F02: texts written one after the other to a file. Texts given by glyph names go through encodings which are     *)
(* shared and extended as long as they have room, texts given by codes use the font's own encoding; the fonts      *)
(* written at the end contain what was registered. Whatever the history, every code shown at any time means the    *)
(* glyph it was meant for when the file is complete.                                                               *)
EXTENDS FontUse, TLC, Json
CONSTANTS Fonts, Words, Codes, N, Cap
VARIABLES hist, encs, used, shown
vars == <<hist, encs, used, shown>>
Own == [c \in 1..4 |-> <<"B", "A", "Aacute", "a">>[c]]
Parts(g) == IF g = "Aacute" THEN {"A", "acute"} ELSE {}
Range(s) == {s[i] : i \in DOMAIN s}
Init == hist = <<>> /\ encs = [f \in Fonts |-> <<>>] /\ used = [f \in Fonts |-> {}] /\ shown = <<>>
\* an encoding is a sequence of glyph names
Room(e, gs) == Cardinality(gs \ Range(e)) + Len(e) <= Cap
RECURSIVE Extend(_, _)
Extend(e, gs) == LET m == {g \in gs : g \notin Range(e)} IN IF m = {} THEN e ELSE Extend(Append(e, CHOOSE g \in m : TRUE), gs)
Code(e, g) == CHOOSE i \in DOMAIN e : e[i] = g
ByName(f, w) == LET gs == Range(w) fit == {i \in DOMAIN encs[f] : Room(encs[f][i], gs)}
                    k == IF fit = {} THEN Len(encs[f]) + 1 ELSE CHOOSE i \in fit : \A j \in fit : i <= j
                    new == Extend(IF fit = {} THEN <<>> ELSE encs[f][k], gs) IN
   /\ encs' = [encs EXCEPT ![f] = IF fit = {} THEN Append(@, new) ELSE [@ EXCEPT ![k] = new]]
   /\ used' = [used EXCEPT ![f] = @ \cup gs]
   /\ shown' = Append(shown, [font |-> f, enc |-> k, codes |-> [i \in DOMAIN w |-> Code(new, w[i])], want |-> w])
ByCode(f, cs) == /\ used' = [used EXCEPT ![f] = @ \cup {Own[cs[i]] : i \in DOMAIN cs}]
                 /\ shown' = Append(shown, [font |-> f, enc |-> 0, codes |-> cs, want |-> [i \in DOMAIN cs |-> Own[cs[i]]]])
                 /\ UNCHANGED encs
Next == /\ Len(hist) < N
        /\ \E f \in Fonts, page \in 1..2 :
             /\ (hist # <<>> => hist[Len(hist)].page <= page)
             /\ \/ \E w \in Words : ByName(f, w) /\ hist' = Append(hist, [font |-> f, named |-> TRUE, word |-> w, codes |-> <<>>, page |-> page])
                \/ \E c \in Codes : ByCode(f, c) /\ hist' = Append(hist, [font |-> f, named |-> FALSE, word |-> <<>>, codes |-> c, page |-> page])
Spec == Init /\ [][Next]_vars
Embedded(f) == used[f] \cup UNION {Parts(g) : g \in used[f]}
Decoded(s) == [i \in DOMAIN s.codes |-> IF s.enc = 0 THEN Own[s.codes[i]] ELSE encs[s.font][s.enc][s.codes[i]]]
Faithful == \A i \in DOMAIN shown : Decoded(shown[i]) = shown[i].want /\ Range(shown[i].want) \subseteq Embedded(shown[i].font)
OneCode == \A f \in Fonts : \A k \in DOMAIN encs[f] : Len(encs[f][k]) <= Cap /\ Cardinality(Range(encs[f][k])) = Len(encs[f][k])
Closed == \A f \in Fonts : \A g \in Embedded(f) : Parts(g) \subseteq Embedded(f)
WordSet == {<<"A">>, <<"B", "a">>, <<"Aacute", "B">>, <<"a", "A", "a">>}
CodeSet == {<<1>>, <<3, 2>>, <<4, 1>>}
Emit == Len(hist) = N => PrintT("@" \o ToJson(hist))
=============================================================================
