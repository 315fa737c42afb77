---------------------------- MODULE PathHistTrace ----------------------------
(* P03: after every operation the shapes of all paths are recorded (1/60000). *)
EXTENDS TraceLib, PathHist
VARIABLES tid, l, st, err
U == 1000
T == 40
Near(a, b, t) == a - b <= t /\ b - a <= t
Grid(x) == (x + U \div 2) \div U
OnGrid(g) == \A i \in DOMAIN g : \A j \in DOMAIN g[i].p : \A c \in {1, 2} : Near(g[i].p[j][c], U * Grid(g[i].p[j][c]), T)
Shape(g) == [i \in DOMAIN g |-> [p |-> [j \in DOMAIN g[i].p |-> <<Grid(g[i].p[j][1]), Grid(g[i].p[j][2])>>], z |-> g[i].z]]
SamePath(g, path) == OnGrid(g) /\ Canon(Shape(g)) = Canon(path)
TStep(s, e) ==
  IF e.k = "start" THEN Ok(e.vals)
  ELSE IF ~Can(s, e) THEN Bad(s, "not-modelled")
  ELSE IF e.failed # "" THEN Bad(s, "refused")
  ELSE LET want == Do(s, e) IN
       IF Len(e.got) # Len(want) THEN Bad(want, "number")
       ELSE Clauses(want, << <<\A i \in DOMAIN want : i <= Len(s) /\ ~(InPlace(e) /\ i = e.i) => SamePath(e.got[i], want[i]), "another-path-changed">>,
                             <<\A i \in DOMAIN want : i > Len(s) => SamePath(e.got[i], want[i]), "result">>,
                             <<InPlace(e) => SamePath(e.got[e.i], want[e.i]), "in-place">>,
                             <<\A i \in DOMAIN want : SamePath(e.items[i], want[i]), "items">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = <<>> /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
