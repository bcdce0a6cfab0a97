-------------------------------- MODULE Same --------------------------------
(* Two recordings of the same operations, made by two implementations (other  *)
(* storage types, another language): every result is the same. a is the       *)
(* recording of the reference, each result <<what, digest of its value>>.     *)
(* Where the reference ends early, nothing is said beyond its end.            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, bad
vars == <<tr, pos, bad>>
A == TR[tr].a
B == TR[tr].b
Who == CHOOSE p \in Chk : TRUE
Init == tr \in 1..Len(TR) /\ pos = 1 /\ bad = ""
Reject(why) == bad' = why /\ UNCHANGED <<tr, pos>> /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, why>>)
Next == /\ bad = ""
        /\ IF pos > Len(A)
           THEN IF pos = Len(A) + 1 /\ TR[tr].acrash = 0 /\ (TR[tr].bcrash = 1 \/ Len(B) # Len(A))
                THEN Reject(Who \o " ends differently") ELSE UNCHANGED vars
           ELSE IF pos > Len(B) THEN Reject(Who \o " ends early, without " \o A[pos][1])
           ELSE IF A[pos][1] # B[pos][1] THEN Reject(Who \o " other operations: " \o B[pos][1])
           ELSE IF A[pos][2] # B[pos][2] THEN Reject(Who \o " the results of both differ: " \o A[pos][1])
           ELSE pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
