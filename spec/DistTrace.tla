------------------------------ MODULE DistTrace ------------------------------
(* Recorded operations on distance objects against Dist: after each one, what  *)
(* every object shows is looked at.                                            *)
EXTENDS Dist, Json
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, x, bad
vars == <<tr, pos, x, bad>>
Ev == TR[tr].ev[pos]
Ks == 0..7
Init == tr \in 1..Len(TR) /\ pos = 1 /\ bad = "" /\ x = [q \in Ks |-> None]
Reject(why) == bad' = why /\ UNCHANGED <<tr, pos, x>> /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, why>>)
Adv == pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Fits(D, y, s) ==
    /\ s.full = (y.st = "full") /\ s.nn = y.nn
    /\ s.full => s.n = Len(D) /\ s.d = D /\ s.c = Cores(D, y.nn)
Matrix(y) == {TLCEval(DistMatrix(TR[tr].data[y.k]))}          \* a set of one, so that it is computed once
Shown(y, s) == IF s.full THEN \E D \in Matrix(y) : Fits(D, y, s) ELSE Fits(<<>>, y, s)
Why(y, s) ==
    IF s.full # (y.st = "full") THEN "presence of the results" ELSE IF s.nn # y.nn THEN "number of neighbours"
    ELSE IF \E D \in Matrix(y) : s.n # Len(D) THEN "number of points" ELSE IF \E D \in Matrix(y) : s.d # D THEN "distances" ELSE "core distances"
Step == LET o == [op |-> Ev.op, k |-> Ev.d + 1, nn |-> Ev.nn]
            y == After(x[Ev.k], o)
            z == [x EXCEPT ![Ev.k] = y]
            wrong == {q \in DOMAIN Ev.all : ~Shown(z[Ev.all[q].k], Ev.all[q])}
        IN IF Ev.inp # 1 THEN Reject("C32 the caller's data is modified")
           ELSE IF {Ev.all[q].k : q \in DOMAIN Ev.all} # {q \in Ks : z[q].st # "none"} THEN Reject("C32 objects")
           ELSE IF wrong # {} THEN LET q == CHOOSE q \in wrong : TRUE IN Reject("C32 " \o Why(z[Ev.all[q].k], Ev.all[q]) \o " after " \o Ev.op)
           ELSE x' = z /\ Adv
Mem == IF Ev.bad # 0 \/ Ev.over # 0 THEN Reject("C32 memory released twice or used outside its bounds")
       ELSE IF (\A q \in Ks : x[q].st = "none") /\ Ev.live # 0 THEN Reject("C32 memory never released")
       ELSE UNCHANGED x /\ Adv
Next == /\ bad = ""
        /\ IF pos > Len(TR[tr].ev) THEN UNCHANGED vars
           ELSE CASE Ev.e = "dobj" -> Step
                  [] Ev.e = "mem" -> Mem
                  [] Ev.e = "crash" -> Reject("C32 the program crashed or a memory error was reported")
                  [] OTHER -> UNCHANGED x /\ Adv
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
