------------------------------- MODULE TextMC -------------------------------
(* All short histories of one engine; "show 1"/"show n": the first/the last text there is. They are executed by the code   *)
(* and its observations judged by TextTrace.                                                                                *)
EXTENDS TextEngine, TLC, Json
CONSTANT MaxLen
VARIABLES s, h
T(bad, item) == [lines |-> <<<<[k |-> "rule", w |-> 100, h |-> 100, d |-> 0], item>>>>, width |-> 0, flush4 |-> 0, baseline |-> "top", valign4 |-> -1, vshift |-> <<>>, phantom |-> FALSE,
              halign4 |-> 0, bad |-> bad, accepts |-> FALSE, x |-> 0, y |-> 0, scale |-> 1, trafos |-> <<>>, color |-> "black"]
Plain == T("", [k |-> "kern", w |-> 10])
Bad == T("", [k |-> "undefined"])
Unsendable == T("encoding", [k |-> "kern", w |-> 10])
Init == s = New([engs |-> <<>>, insts |-> <<>>, boxes |-> <<>>], TRUE) /\ h = <<>>
Do(what, t) == h' = Append(h, what) /\ s' = t
Next == /\ Len(h) < MaxLen
        /\ \/ /\ Current(s, 1).st \in {"start"} /\ Do("preamble", Preambled(s, 1, <<[name |-> "x", w |-> 1, h |-> 1, d |-> 1]>>))
           \/ /\ Current(s, 1).st \in {"typeset", "done"} /\ Do("preamble", s)
           \/ Do("text", Texted(s, 1, Plain))
           \/ Do("failing", FailedText(s, 1, Bad))
           \/ Do("unsent", FailedText(s, 1, Unsendable))
           \/ Do("reset", Reset(s, 1))
           \/ /\ s.boxes # <<>> /\ \/ Do("show 1", Shown(s, <<1>>))
                                    \/ Do("show n", Shown(s, <<Len(s.boxes)>>))
\* texts belong to processes which have typeset something, and a process which has shown a text never takes another one
Owned == \A i \in DOMAIN s.boxes : s.insts[s.boxes[i].inst].st \in {"typeset", "done", "unclear-done"}
Emit == (Len(h) = MaxLen \/ Len(h) = 0) => PrintT("@" \o ToJson(h))
=============================================================================
