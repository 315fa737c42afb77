------------------------------ MODULE TraceLib ------------------------------
(* Shared shape of all trace specifications.                                                    *)
(* A trace specification instantiates this by defining                                          *)
(*   TInit(t)      - the abstract state before the first event of trace t (may use t's scenario) *)
(*   TStep(s, e, t)- a record [s |-> next abstract state, err |-> "" or the failing clause]      *)
(* and gets: a total verdict per trace.  A rejected trace stops at the first bad event and is    *)
(* reported with the name of the failing clause; accepted traces are consumed completely (the    *)
(* harness checks the number of distinct states against the number of recorded events).         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Traces == JsonDeserialize("traces.json")
Ok(s) == [s |-> s, err |-> ""]
Bad(s, why) == [s |-> s, err |-> why]
\* first failing clause of a sequence of <<condition, name>>
RECURSIVE FirstBad(_, _)
FirstBad(cs, i) == IF i > Len(cs) THEN "" ELSE IF cs[i][1] THEN FirstBad(cs, i + 1) ELSE cs[i][2]
Clauses(s, cs) == [s |-> s, err |-> FirstBad(cs, 1)]
=============================================================================
