------------------------------ MODULE LogTrace ------------------------------
(* Conformance of a recorded log with Log: what is found after a sequence of  *)
(* messages, also of several threads, is taken apart message by message.      *)
EXTENDS Log, FiniteSets, TLC, Json
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, pend, q, bad
vars == <<tr, pos, pend, q, bad>>
Ev == TR[tr].ev[pos]
Init == tr \in 1..Len(TR) /\ pos = 1 /\ q = 1 /\ bad = "" /\ pend = [t \in 0..15 |-> <<>>]
Reject(why) == bad' = why /\ UNCHANGED <<tr, pos, pend, q>> /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, why>>)
Adv == pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Write == pend' = [pend EXCEPT ![Ev.t] = Append(@, pos)] /\ q' = q /\ Adv
Conflict(a, b) == /\ a[1] <= b[2] /\ b[1] <= a[2] /\ (a[3] = 1 \/ b[3] = 1)
                  /\ {a[4][i] : i \in DOMAIN a[4]} \cap {b[4][i] : i \in DOMAIN b[4]} = {}
Region == IF \E t, u \in DOMAIN Ev.acc : t < u /\ \E i \in DOMAIN Ev.acc[t], j \in DOMAIN Ev.acc[u] : Conflict(Ev.acc[t][i], Ev.acc[u][j])
          THEN Reject("C34 threads access the same memory without synchronisation") ELSE UNCHANGED <<pend, q>> /\ Adv
(* the threads whose next message lies at q *)
Here == {t \in DOMAIN pend : pend[t] # <<>> /\ At(Ev.x, q, TR[tr].ev[pend[t][1]], Ev.t0, Ev.t1)}
Found == IF \A t \in DOMAIN pend : pend[t] = <<>>
         THEN IF q = Len(Ev.x) + 1 THEN UNCHANGED <<pend, q>> /\ Adv ELSE Reject("C34 more in the log than was written")
         ELSE IF Here = {} THEN Reject("C34 a message is lost, changed, torn or out of order")
         ELSE \E t \in Here : /\ q' = q + Size(TR[tr].ev[pend[t][1]]) /\ pend' = [pend EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<tr, pos, bad>>
Next == /\ bad = ""
        /\ IF pos > Len(TR[tr].ev) THEN UNCHANGED vars
           ELSE CASE Ev.e = "lwrite" -> Write
                  [] Ev.e = "lout" -> Found
                  [] Ev.e = "region" -> Region
                  [] Ev.e = "crash" -> Reject("the program crashed")
                  [] Ev.e = "mem" -> (IF Ev.live = 0 /\ Ev.bad = 0 /\ Ev.over = 0 THEN UNCHANGED <<pend, q>> /\ Adv ELSE Reject("C34 memory is left"))
                  [] OTHER -> UNCHANGED <<pend, q>> /\ Adv
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
