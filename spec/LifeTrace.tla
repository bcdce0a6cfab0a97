------------------------------ MODULE LifeTrace ------------------------------
(* Recorded lives of clustering objects.                                      *)
(* Results (C09, C11, C12): what an object yields is a function of the data   *)
(* set of its last run and its current minimum number of points: it equals    *)
(* the result of a new object in a process of its own, given as base.         *)
(* Memory (C10): whenever the library is asked for its blocks, none was       *)
(* released twice or overrun, and when nothing is held none is allocated.     *)
(* Threads (C11, C12): accesses of the threads of a region (parts of memory   *)
(* merged to intervals) do not conflict.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, held, ob, bad
vars == <<tr, pos, held, ob, bad>>
Ev == TR[tr].ev[pos]
Init == tr \in 1..Len(TR) /\ pos = 1 /\ held = {} /\ bad = "" /\ ob = [h \in {} |-> <<>>]
On(p) == p \in Chk
Res == Chk \cap {"C09", "C11", "C12", "C14"} # {}
Who == CHOOSE p \in Chk : TRUE
Adv == pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Reject(why) == bad' = why /\ UNCHANGED <<tr, pos, held, ob>> /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, why>>)
Same == UNCHANGED ob
Set(h, x) == ob' = [q \in (DOMAIN ob) \cup {h} |-> IF q = h THEN x ELSE ob[q]]
Hold(x) == held' = held \cup {x} /\ Adv
Drop(S) == held' = held \ S /\ Adv
Mem == IF ~On("C10") THEN Drop({}) /\ Same
       ELSE IF Ev.bad # 0 THEN Reject("C10 memory released twice or never allocated")
       ELSE IF Ev.over # 0 THEN Reject("C10 memory written outside its bounds or after its release")
       ELSE IF held = {} /\ Ev.live # 0 THEN Reject("C10 memory never released")
       ELSE Drop({}) /\ Same
(* a result: part p, computed from the object or map src, has digest dg *)
Obj(h) == "o" \o ToString(h)
Result == LET s == ob[Ev.src]
              b == TR[tr].base[ToString(s.k) \o "_" \o ToString(s.mp)]
          IN IF Res /\ Ev.dg # b[Ev.p] THEN Reject(Who \o " the " \o Ev.p \o " differ from those of a new object computed alone")
             ELSE Drop({}) /\ Same
(* a map holds what it was computed from *)
Keep(w, c) == IF Ev.h >= 0 /\ Obj(Ev.h) \in DOMAIN ob THEN Set(w \o ToString(c), ob[Obj(Ev.h)]) ELSE Same
(* intervals <<lo, hi, written, locks>> of bytes lo..hi per thread *)
Conflict(a, b) == /\ a[1] <= b[2] /\ b[1] <= a[2] /\ (a[3] = 1 \/ b[3] = 1)
                  /\ {a[4][i] : i \in DOMAIN a[4]} \cap {b[4][i] : i \in DOMAIN b[4]} = {}
Region == IF \E t, u \in DOMAIN Ev.acc : t < u /\ \E i \in DOMAIN Ev.acc[t], j \in DOMAIN Ev.acc[u] : Conflict(Ev.acc[t][i], Ev.acc[u][j])
          THEN Reject(Who \o " threads access the same memory without synchronisation") ELSE Drop({}) /\ Same
Next == /\ bad = ""
        /\ IF pos > Len(TR[tr].ev) THEN UNCHANGED vars
           ELSE CASE Ev.e = "init" -> /\ Set(Obj(Ev.h), [k |-> -1, mp |-> Ev.mp])
                                      /\ IF Ev.where = "st" THEN Drop({}) ELSE Hold(<<"obj", Ev.h>>)
                  [] Ev.e = "run" -> IF Ev.ret = 0 THEN Reject(Who \o " a run does not succeed") ELSE Hold(<<"res", Ev.h>>) /\ Set(Obj(Ev.h), [ob[Obj(Ev.h)] EXCEPT !.k = Ev.k])
                  [] Ev.e = "rerun" -> IF Ev.ret = 0 THEN Reject(Who \o " a rerun does not succeed") ELSE Hold(<<"res", Ev.h>>) /\ Set(Obj(Ev.h), [ob[Obj(Ev.h)] EXCEPT !.mp = Ev.mp])
                  [] Ev.e = "cons" -> Hold(<<"res", Ev.h>>) /\ Same
                  [] Ev.e = "clean" -> Drop({<<"res", Ev.h>>}) /\ Same
                  [] Ev.e = "destroy" -> Drop({<<"res", Ev.h>>, <<"obj", Ev.h>>}) /\ Same
                  [] Ev.e = "result" -> Result
                  [] Ev.e = "region" -> Region
                  [] Ev.e = "cmap" -> Hold(<<"cm", Ev.c>>) /\ Keep("c", Ev.c)
                  [] Ev.e \in {"minmax", "mkdm"} -> Hold(<<"dm", Ev.c>>) /\ Keep("d", Ev.c)
                  [] Ev.e = "sort" -> Hold(<<"sl", Ev.o>>) /\ Same
                  [] Ev.e = "mapfree" -> Drop({<<"cm", Ev.c>>}) /\ Same
                  [] Ev.e = "dmfree" -> Drop({<<"dm", Ev.c>>}) /\ Same
                  [] Ev.e = "sortfree" -> Drop({<<"sl", Ev.c>>}) /\ Same
                  [] Ev.e \in {"graph", "cl", "al", "ll", "ht", "set"} ->
                        (IF Ev.op \in {"init", "initsize"} THEN Hold(<<Ev.e, Ev.k>>)
                         ELSE IF Ev.op \in {"destroy", "delete"} THEN Drop({<<Ev.e, Ev.k>>}) ELSE Drop({})) /\ Same
                  [] Ev.e = "mem" -> Mem
                  [] Ev.e = "crash" -> Reject(Who \o " the program crashed or a memory error was reported")
                  [] OTHER -> Drop({}) /\ Same
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
