------------------------------- MODULE LineTrace -------------------------------
(* Recorded distances and core distances of large data on a line.             *)
EXTENDS Line, Sequences, Json, TLC
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, bad
vars == <<tr, pos, bad>>
T == TR[tr]
Init == tr \in 1..Len(TR) /\ pos = 1 /\ bad = ""
Reject(why) == bad' = why /\ UNCHANGED <<tr, pos>> /\ PrintT(<<"REJECTED", T.id, pos, 0, why>>)
Why(p) ==
    IF T.crash THEN "the program crashed"
    ELSE IF p <= Len(T.q)
    THEN IF T.q[p][3] # Gap(T.n, T.m, T.q[p][1], T.q[p][2]) THEN "C01 distance of two of many points" ELSE ""
    ELSE LET c == T.c[p - Len(T.q)] IN
         IF c[2] # CoreAt(T.n, T.m, T.mp, c[1]) THEN "C02 core distance of one of many points" ELSE ""
Next == /\ bad = ""
        /\ IF pos > (IF T.crash THEN 1 ELSE Len(T.q) + Len(T.c)) THEN UNCHANGED vars
           ELSE IF Why(pos) # "" THEN Reject(Why(pos)) ELSE pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
===============================================================================
