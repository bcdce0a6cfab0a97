----------------------------- MODULE PrintTrace -----------------------------
(* Conformance of printed and exported text with the results recorded before: *)
(* an export leaves both files of its name with the results of that moment,   *)
(* and no other file changes.                                                 *)
EXTENDS Print, Json
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, res, files, bad
vars == <<tr, pos, res, files, bad>>
Ev == TR[tr].ev[pos]
On(p) == p \in Chk
Nil == [q \in {} |-> 0]
Init == tr \in 1..Len(TR) /\ pos = 1 /\ bad = "" /\ res = Nil /\ files = Nil
Put(f, k, x) == [q \in (DOMAIN f) \cup {k} |-> IF q = k THEN x ELSE f[q]]
Reject(why) == bad' = why /\ UNCHANGED <<tr, pos, res, files>> /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, why>>)
Adv == pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Skip == UNCHANGED <<res, files>> /\ Adv
(* a result of kind k of owner o *)
Result(k, o, v) == res' = Put(res, <<k, o>>, v) /\ UNCHANGED files /\ Adv
Shown(what, want) == IF On("C26") /\ Ev.t # want THEN Reject("C26 " \o what) ELSE Skip
Export == IF Ev.shut = 1 THEN Skip ELSE files' = Put(files, Ev.name, res[<<"rows", Ev.h>>]) /\ UNCHANGED res /\ Adv
Read == LET x == IF Ev.name \in DOMAIN files THEN files[Ev.name] ELSE <<>>
        IN IF On("C26") /\ Ev.ok # (IF Ev.name \in DOMAIN files THEN 1 ELSE 0) THEN Reject("C26 files of a name")
           ELSE IF On("C26") /\ Ev.ok = 1 /\ (Ev.csv # CsvFile(x) \/ Ev.vis # VisFile(x)) THEN Reject("C26 exported hierarchy")
           ELSE Skip
Next ==
    /\ bad = ""
    /\ IF pos <= Len(TR[tr].ev)
       THEN CASE Ev.e \in {"rows", "scores", "dist", "mgraph"} -> Result(Ev.e, Ev.h, Ev.v)
              [] Ev.e = "cmap" -> Result("cmap", Ev.c, Ev.v)
              [] Ev.e \in {"minmax", "mkdm", "conf"} -> Result("dmap", Ev.c, Ev.v)
              [] Ev.e = "stats" -> Result("stats", Ev.s, Ev.v)
              [] Ev.e = "graph" -> Result("graph", Ev.k, Ev.v)
              [] Ev.e = "phier" -> Shown("hierarchy", HierTable(res[<<"rows", Ev.o>>]))
              [] Ev.e = "pscores" -> Shown("outlier scores", ScoreTable(res[<<"scores", Ev.o>>]))
              [] Ev.e = "pdist" -> Shown("distances", DistTable(res[<<"dist", Ev.o>>]))
              [] Ev.e = "pgraph" -> Shown("graph", GraphTable(res[<<"mgraph", Ev.o>>]))
              [] Ev.e = "pugraph" -> Shown("graph", GraphTable(res[<<"graph", Ev.o>>]))
              [] Ev.e = "pcmap" -> Shown("groups", GroupTable(res[<<"cmap", Ev.o>>]))
              [] Ev.e = "pcsizes" -> Shown("sizes of the groups", SizeTable(res[<<"cmap", Ev.o>>]))
              [] Ev.e = "pdmap" -> Shown("extremes", ExtremeTable(res[<<"dmap", Ev.o>>]))
              [] Ev.e = "pstats" -> Shown("statistics", LET x == res[<<"stats", Ev.o>>] IN StatTable(x.n, x.cr, x.dr))
              [] Ev.e = "log" -> Shown("message", LogLine(Ev.type, Ev.text))
              [] Ev.e = "hexport" -> Export
              [] Ev.e = "hread" -> Read
              [] Ev.e = "crash" -> Reject("the program crashed")
              [] OTHER -> Skip
       ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
