------------------------------- MODULE CluTrace -------------------------------
(* Recorded operations on clusters against Clu: every field of every cluster   *)
(* is compared after every operation.                                          *)
EXTENDS Clu, Json
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, st, bad
vars == <<tr, pos, st, bad>>
Ev == TR[tr].ev[pos]
Init == tr \in 1..Len(TR) /\ pos = 1 /\ bad = "" /\ st = [q \in {} |-> <<>>]
Reject(why) == bad' = why /\ UNCHANGED <<tr, pos, st>> /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, why>>)
Adv == pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Slots == {Ev.all[i].k : i \in DOMAIN Ev.all}
Of(k) == LET x == Ev.all[CHOOSE i \in DOMAIN Ev.all : Ev.all[i].k = k]
         IN [l |-> x.l, p |-> x.p, b |-> x.b, d |-> x.d, n |-> x.n, s |-> x.s, ps |-> x.ps, ld |-> x.ld, nc |-> x.nc, pc |-> x.pc, ch |-> x.ch, hv |-> x.hv, vc |-> Rng(x.vc), de |-> Rng(x.de)]
Now == [k \in Slots |-> Of(k)]
NoTwice == \A i \in DOMAIN Ev.all : Cardinality(Rng(Ev.all[i].de)) = Len(Ev.all[i].de) /\ Cardinality(Rng(Ev.all[i].vc)) = Len(Ev.all[i].vc)
Fields == {"l", "p", "b", "d", "n", "s", "ps", "ld", "nc", "pc", "ch", "hv", "vc", "de"}
Step == IF Ev.op = "destroy" THEN UNCHANGED st /\ Adv         \* what referred to it may not be looked at any more
        ELSE IF ~Defined(st, Ev.k, Ev) THEN Reject("scenario outside the domain")
        ELSE LET q == Do(st, Ev.k, Ev) IN
             IF Slots # DOMAIN q[1] THEN Reject("C30 clusters of " \o Ev.op)
             ELSE IF ~NoTwice THEN Reject("C30 listed twice after " \o Ev.op)
             ELSE IF \E k \in Slots : Now[k] # q[1][k]
             THEN LET k == CHOOSE k \in Slots : Now[k] # q[1][k]
                      f == CHOOSE f \in Fields : Now[k][f] # q[1][k][f] IN Reject("C30 " \o Ev.op \o " and field " \o f)
             ELSE IF "r" \in DOMAIN Ev /\ Ev.r # q[2] THEN Reject("C30 return value of " \o Ev.op)
             ELSE st' = q[1] /\ Adv
Next == /\ bad = ""
        /\ IF pos > Len(TR[tr].ev) THEN UNCHANGED vars
           ELSE CASE Ev.e = "cl" -> Step
                  [] Ev.e = "crash" -> Reject("C30 the program crashed")
                  [] OTHER -> UNCHANGED st /\ Adv
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
