---------------------------- MODULE ExtentTrace ----------------------------
EXTENDS TraceLib, Extent
VARIABLES tid, l, st, err
\* the box of a written file also covers what the canvas reports itself
TInit(t) == [painted |-> PaintedBox(FALSE, St0, t.scene), drawn |-> PaintedBox(TRUE, St0, t.scene), reported |-> ReportedBox(t.scene)]
TStep(s, e) ==
  CASE e.o = "canvas" -> Clauses(s, << <<e.box = s.reported, "reported-box">> >>)
    [] e.o = "file"   -> Clauses(s, << 
                              <<Join(e.box, Join(s.painted, s.reported)) = e.box, "written-box-too-small-" \o e.fmt>>,
                              <<Join(e.box, Join(s.drawn, s.reported)) = Join(s.drawn, s.reported), "written-box-too-large-" \o e.fmt>>  >>)
    \* the integer box of PostScript: contains the real one, by less than two points
    [] e.o = "outer"  -> LET b == Join(s.painted, s.reported)
                         IN Clauses(s, << <<(b = <<>>) = (e.box = <<>>), "outer-empty">>,
                                          <<b = <<>> \/ Join(b, e.box) = e.box, "outer-contains">>,
                                          <<b = <<>> \/ Join(Grow(b, 20, 20, 20, 20), e.box) = Grow(b, 20, 20, 20, 20), "outer-tight">> >>)
    [] OTHER -> Bad(s, "unknown")
Init == \E i \in 1..Len(Traces) : tid = i /\ l = 0 /\ st = TInit(Traces[i]) /\ err = ""
Next == /\ err = ""
        /\ l < Len(Traces[tid].ev)
        /\ LET r == TStep(st, Traces[tid].ev[l + 1]) IN st' = r.s /\ err' = r.err
        /\ l' = l + 1
        /\ UNCHANGED tid
Verdict == err = "" \/ PrintT("@R " \o ToString(tid) \o " " \o ToString(l) \o " " \o err)
=============================================================================
