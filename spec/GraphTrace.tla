------------------------------ MODULE GraphTrace ------------------------------
(* Recorded operations on graphs against Graph.                                *)
EXTENDS Graph, Json
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, st, bad
vars == <<tr, pos, st, bad>>
Ev == TR[tr].ev[pos]
Init == tr \in 1..Len(TR) /\ pos = 1 /\ bad = "" /\ st = [q \in {} |-> <<>>]
Adv == pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Reject(why) == bad' = why /\ UNCHANGED <<tr, pos, st>> /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, why>>)
Now == [es |-> Ev.es, adj |-> [v \in 0..(Ev.nv - 1) |-> Ev.adj[v+1]], nv |-> Ev.nv]
Set(x) == st' = [q \in DOMAIN st \cup {Ev.k} |-> IF q = Ev.k THEN x ELSE st[q]] /\ Adv
Was == st[Ev.k]
Hi == Len(Was.es) - 1
Step == CASE Ev.op = "init" -> IF Now.nv = Ev.want.nv /\ Now.es = Ev.want.es /\ SameAdj(Now.adj, Adjacency(Now.nv, Ev.want.es)) THEN Set(Now) ELSE Reject("C27 a new graph")
          [] Ev.op = "empty" -> IF Ev.nv = 0 THEN UNCHANGED st /\ Adv ELSE Reject("C27 a graph of nothing")
          [] Ev.op = "destroy" -> UNCHANGED st /\ Adv
          [] Now.nv # Was.nv -> Reject("C27 number of vertices")
          [] Ev.op = "remove" -> IF Now.es = Was.es /\ SameAdj(Now.adj, Removed(Was.adj, Ev.a, Ev.b)) THEN Set(Now) ELSE Reject("C27 removing an edge")
          [] ~SameAdj(Now.adj, Was.adj) -> Reject("C27 adjacency changed by " \o Ev.op)
          [] Ev.op = "sort" -> IF Sorted(Was.es, Now.es, 0, Hi) THEN Set(Now) ELSE Reject("C27 sorting the edges")
          [] Ev.op = "rsort" -> IF Sorted(Was.es, Now.es, Ev.a, Ev.b) THEN Set(Now) ELSE Reject("C27 sorting a range of edges")
          [] Ev.op = "swap" -> IF Now.es = Exchange(Was.es, Ev.a + 1, Ev.b + 1) THEN Set(Now) ELSE Reject("C27 exchanging two edges")
          [] Ev.op = "pivot" -> IF Now.es = Was.es /\ Ev.r \in Ev.a..Ev.b THEN Set(Now) ELSE Reject("C27 choosing a pivot")
          [] Ev.op = "part" -> IF Split(Was.es, Now.es, Ev.a, Ev.b, Ev.p, Ev.r) THEN Set(Now) ELSE Reject("C27 partitioning a range of edges")
Next == /\ bad = ""
        /\ IF pos > Len(TR[tr].ev) THEN UNCHANGED vars
           ELSE CASE Ev.e = "graph" -> Step
                  [] Ev.e = "mem" -> IF Ev.bad # 0 \/ Ev.over # 0 \/ Ev.live # 0 THEN Reject("C27 memory of a graph") ELSE UNCHANGED st /\ Adv
                  [] Ev.e = "crash" -> Reject("C27 the program crashed")
                  [] OTHER -> UNCHANGED st /\ Adv
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
