------------------------------ MODULE TableMC ------------------------------
(* All files of up to MaxLines lines over a set of line shapes, with all selections. *)
EXTENDS Table, TLC, Json
CONSTANTS MaxLines, MaxSkip, MaxEvery
A == <<65>>
\* comment with names, empty comment, empty line, data of one to three columns, quoted and odd texts
Shapes == << <<35, 32, 65, 32, 66>>, <<35>>, <<>>, <<32, 49, 32>>, <<50, 9, 51>>, <<34, 97, 32, 98, 34, 32, 45, 52, 46, 53, 32, 97, 34>>, <<33, 33, 65, 65>> >>
VARIABLES ls, sel
Sels == (0..MaxSkip) \X (0..MaxSkip) \X (1..MaxEvery)
Init == ls = <<>> /\ sel \in Sels
Next == Len(ls) < MaxLines /\ \E i \in DOMAIN Shapes : ls' = Append(ls, Shapes[i]) /\ UNCHANGED sel
T == FileTable(ls, sel[1], sel[2], sel[3])
N == Len(DataLines(ls))
S == Shown(N, sel[1], sel[2], sel[3])
\* all columns have one value per line shown, the first column tells which
SameLength == \A j \in DOMAIN T.num : Len(T.num[j]) = Len(S)
Numbers == T.num # <<>> => T.num[1] = [k \in DOMAIN S |-> Num(1000 * S[k])]
NamedAreNumbered == \A c \in T.cols : T.empty \/ \E j \in 2..Len(T.num) : c[2] = T.num[j]
\* selecting every line of a selection by another is a selection: skipping all but the first selects at most one
Everything == sel = <<0, 0, 1>> => Len(S) = N
Some == (N > sel[1] + sel[2]) => S # <<>> /\ S[1] = sel[1] + 1 /\ S[Len(S)] <= N - sel[2]
\* comments and empty lines behind the first data line do not matter
NoLateComments == LET d == {k \in DOMAIN ls : Strip(ls[k]) # <<>> /\ ~IsComment(Strip(ls[k]))} IN
   d # {} => LET f == CHOOSE k \in d : \A j \in d : k <= j
                 kept == SelectSeq([k \in DOMAIN ls |-> <<k, ls[k]>>], LAMBDA p : p[1] <= f \/ p[1] \in d)
             IN FileTable([k \in DOMAIN kept |-> kept[k][2]], sel[1], sel[2], sel[3]) = T
Emit == PrintT("@" \o ToJson([ls |-> ls, sel |-> sel, cols |-> T.cols, num |-> T.num]))
=============================================================================
