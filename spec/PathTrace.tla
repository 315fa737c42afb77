----------------------------- MODULE PathTrace ------------------------------
(* Each event: one path (its elements) with all its renderings, each read back as elements. *)
EXTENDS TraceLib, PathBuild
VARIABLES tid, l, st, err
TInit(t) == 0
Same(e, r, dots) == LET x == Subpaths(e.es) y == Subpaths(r) IN y.ok /\ (IF dots THEN x.subs = y.subs ELSE NoDots(x).subs = NoDots(y).subs)
HasCurve(subs) == \E i \in DOMAIN subs : \E j \in DOMAIN subs[i].g : subs[i].g[j].k = "c"
\* moves without anything drawn count for the extent only as PostScript's pathbbox sees it: not compared
Isolated(es) == (\E i \in DOMAIN es : es[i].o \in {"arc", "arcn"} /\ (es[i].n[1] - es[i].n[2]) % 4 = 0) \/ \E i \in DOMAIN es : es[i].o \in {"M", "m"} /\ (i = Len(es) \/ es[i + 1].o \in {"M", "m"})
TStep(s, e) ==
  LET x == Subpaths(e.es) fin == BuildAll(Empty, e.es)
  IN IF ~x.ok THEN Clauses(s, << <<e.refused = <<TRUE, TRUE, TRUE, TRUE, TRUE>>, "not-refused">> >>)
     ELSE Clauses(s, << <<\A i \in DOMAIN e.refused : ~e.refused[i], "refused">>,
                        <<Same(e, e.ps, TRUE), "PS">>,
                        <<Same(e, e.pdf, TRUE), "PDF">>,
                        <<Same(e, e.svg, TRUE), "SVG">>,
                        <<Same(e, e.glyph, TRUE), "SVG-font">>,
                        <<Same(e, e.norm, FALSE), "normpath">>,
                        <<Same(e, e.normps, FALSE), "normpath-PS">>,
                        <<Same(e, e.normpdf, FALSE), "normpath-PDF">>,
                        <<Same(e, e.normsvg, FALSE), "normpath-SVG">>,
                        <<Same(e, e.round, FALSE), "normpath-to-path">>,
                        <<(NoDots(x).subs # <<>> /\ ~HasCurve(x.subs) /\ ~Isolated(e.es)) => e.bbox = ExtentOf(AllPoints(x.subs)), "bbox">>,
                        <<(NoDots(x).subs # <<>> /\ ~HasCurve(x.subs)) => e.nbbox = ExtentOf(AllPoints(NoDots(x).subs)), "normpath-bbox">>,
                        <<e.end # <<>> => e.end[1] = fin.cp, "current-point">> >>)
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = TInit(Traces[i]) /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
