------------------------------- MODULE AxisMC -------------------------------
(* All short histories of one axis, with the outcome expected of each operation. *)
EXTENDS AxisMap, TLC, Json
CONSTANTS MaxOps
Cfgs == [min : {<<>>, <<0>>}, max : {<<>>, <<2>>, <<-1>>}, rev : BOOLEAN, fall : {<<>>, <<1>>, <<0, 4>>}]
VARIABLES given, cfg, a, hist
vars == <<given, cfg, a, hist>>
Init == given \in Cfgs /\ cfg = Norm(given) /\ a = NewAxis(cfg) /\ hist = <<>>
Do(op, x, b, ok, p) == a' = b /\ hist' = Append(hist, [k |-> op, x |-> x, ok |-> ok, p |-> p]) /\ UNCHANGED <<given, cfg>>
Made(x) == IF x.made THEN x ELSE LET r == Base(cfg, x) IN [x EXCEPT !.lo = <<r[1]>>, !.hi = <<r[2]>>, !.made = TRUE]
DoAdjust == \E vs \in {<<1>>, <<3>>, <<0, 2>>, <<>>} : Do("adjust", vs, Adjust(cfg, a, vs), TRUE, <<>>)
DoMake == IF a.made \/ CanMake(cfg, a) THEN Do("make", <<>>, Made(a), TRUE, <<Made(a).lo[1], Made(a).hi[1]>>)
          ELSE Do("make", <<>>, a, FALSE, <<>>)
DoConvert == \E x \in {1, 4} : IF a.made \/ CanMake(cfg, a) THEN LET m == Made(a) IN Do("convert", <<x>>, m, TRUE, Pos(cfg, <<m.lo[1], m.hi[1]>>, x))
                               ELSE Do("convert", <<x>>, a, FALSE, <<>>)
Next == Len(hist) < MaxOps /\ (DoAdjust \/ DoMake \/ DoConvert)
\* laws
Rng == <<a.lo[1], a.hi[1]>>
Ends == a.made => /\ Same(Pos(cfg, Rng, Rng[1]), IF cfg.rev THEN <<1, 1>> ELSE <<0, 1>>)
                  /\ Same(Pos(cfg, Rng, Rng[2]), IF cfg.rev THEN <<0, 1>> ELSE <<1, 1>>)
Monotone == a.made => \A x, y \in -4..4 : x < y => (Less(Pos(cfg, Rng, x), Pos(cfg, Rng, y)) <=> (cfg.rev = (Rng[2] < Rng[1])))
Encloses == a.made /\ cfg.min = <<>> /\ cfg.max = <<>> /\ cfg.fall = <<>> =>
   \A i \in DOMAIN hist : hist[i].k = "adjust" /\ (\A j \in 1..(i - 1) : hist[j].k = "adjust" \/ ~hist[j].ok) =>
       \A n \in DOMAIN hist[i].x : hist[i].x[n] \in Rng[1]..Rng[2]
FixedStays == (cfg.min # <<>> /\ cfg.max # <<>>) => a.lo = cfg.min /\ a.hi = cfg.max
SwapLaw == a.made /\ Swapped(given) => \A x \in -4..4 : Same(Pos(given, <<given.min[1], given.max[1]>>, x), Pos(cfg, Rng, x))
MadeOnce == [][a.made => a' = a]_vars
Emit == Len(hist) = MaxOps => PrintT("@" \o ToJson([cfg |-> given, ops |-> hist]))
=============================================================================
