------------------------------- MODULE Lookup -------------------------------
(* Finding files and options. A file system arrangement a:                                                    *)
(*  a.local, a.internal: names in the current directory and the data of PyX;                                  *)
(*  a.dirs: sequence of directory trees (names somewhere in them); a.lsr: sequence of [name, id, there];      *)
(*  a.kps: records [format, name, id, there] (what kpsewhich answers), a.haskps: it can be run;               *)
(*  a.loc: sequence of [name, id, there] (what locate knows of), a.hasloc                                     *)
(* Files are identified by strings. A request: name, formats (sequence of [name, exts]), suffixes (what the   *)
(* name ends with). Configuration files: a sequence of sequences of [s, o, v].                                *)
EXTENDS Integers, Sequences, FiniteSets
SetOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
\* the names a file may have, in order: a name with an extension of one of the formats is complete
Names(req) ==
  IF \E i \in DOMAIN req.formats : SetOf(req.formats[i].exts) \cap SetOf(req.suffixes) # {} THEN <<req.name>>
  ELSE Flat([i \in DOMAIN req.formats |-> IF req.formats[i].exts = <<>> THEN <<req.name>> ELSE [j \in DOMAIN req.formats[i].exts |-> req.name \o req.formats[i].exts[j]]])
FirstIn(names, set) == IF \E i \in DOMAIN names : names[i] \in set
                       THEN LET i == CHOOSE i \in DOMAIN names : names[i] \in set /\ \A k \in 1..i - 1 : names[k] \notin set IN <<names[i]>>
                       ELSE <<>>
\* the files a locator may deliver (none: it does not have any)
Local(a, names) == LET f == FirstIn(names, SetOf(a.local)) IN IF f = <<>> THEN {} ELSE {"local:" \o f[1]}
Internal(a, names) == LET f == FirstIn(names, SetOf(a.internal)) IN IF f = <<>> THEN {} ELSE {"internal:" \o f[1]}
\* of equal names the one of the first tree counts; among several names any
Dirs(a, names) == {a.dirs[k].id \o ":" \o n : <<k, n>> \in {<<k, n>> \in (DOMAIN a.dirs) \X SetOf(names) :
                     n \in SetOf(a.dirs[k].names) /\ \A m \in 1..k - 1 : n \notin SetOf(a.dirs[m].names)}}
\* a table of names: the first line of a name counts, and a file that has gone is not found
Tabled(table, names) == LET f == FirstIn(names, {table[i].name : i \in DOMAIN table}) IN
  IF f = <<>> THEN {}
  ELSE LET i == CHOOSE i \in DOMAIN table : table[i].name = f[1] /\ \A k \in 1..i - 1 : table[k].name # f[1] IN IF table[i].there THEN {table[i].id} ELSE {}
Kpse(a, req) == LET hits == {i \in DOMAIN req.formats : \E k \in DOMAIN a.kps : a.kps[k].format = req.formats[i].name /\ a.kps[k].name = req.name} IN
  IF ~a.haskps \/ hits = {} THEN {}
  ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j
           k == CHOOSE k \in DOMAIN a.kps : a.kps[k].format = req.formats[i].name /\ a.kps[k].name = req.name
       IN IF a.kps[k].there THEN {a.kps[k].id} ELSE {}
By(a, method, req) == CASE method = "local" -> Local(a, Names(req)) [] method = "internal" -> Internal(a, Names(req)) [] method = "recursivedir" -> Dirs(a, Names(req))
                        [] method = "ls-R" -> Tabled(a.lsr, Names(req)) [] method = "kpsewhich" -> Kpse(a, req)
                        [] method = "locate" -> IF a.hasloc THEN Tabled(a.loc, Names(req)) ELSE {} [] OTHER -> {}
RECURSIVE Find(_, _, _)
Find(a, methods, req) == IF methods = <<>> THEN {} ELSE LET f == By(a, methods[1], req) IN IF f # {} THEN f ELSE Find(a, Tail(methods), req)
\* options: the value of the last file defining it, as <<v>>, or <<>>
Option(layers, s, o) == LET d == {<<i, j>> \in UNION {{<<i, j>> : j \in DOMAIN layers[i]} : i \in DOMAIN layers} : layers[i][j].s = s /\ layers[i][j].o = o} IN
  IF d = {} THEN <<>> ELSE LET m == CHOOSE m \in d : \A x \in d : x[1] <= m[1] IN <<layers[m[1]][m[2]].v>>
\* lists: values are separated by blanks; a replacement text stands for a blank within a value (values: sequences of pieces)
RECURSIVE Join(_, _)
Join(pieces, space) == IF pieces = <<>> THEN "" ELSE (IF pieces[1] = space /\ space # "" THEN " " ELSE pieces[1]) \o Join(Tail(pieces), space)
Space(layers) == Option(layers, "general", "space")[1].text
ListOf(layers, v) == [i \in DOMAIN v.words |-> Join(v.words[i], Space(layers))]
=============================================================================
