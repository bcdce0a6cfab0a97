------------------------------ MODULE LogModel ------------------------------
(* Threads that put a message together on their own and hand it over whole; a *)
(* log that is a stream, or a file that is opened and closed (Sessions).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, N, Sessions, Kinds, Emit
VARIABLES done, buf, out, open, ses, hist
vars == <<done, buf, out, open, ses, hist>>
core == <<done, buf, out, open, ses>>
Init == /\ done = [t \in Threads |-> 0] /\ buf = [t \in Threads |-> 0] /\ out = <<>> /\ open = FALSE /\ ses = 0 /\ hist = <<>>
H(o) == hist' = Append(hist, o) /\ (Emit => PrintT("SEQ " \o ToJson(hist')))
Open == ~open /\ ses < Sessions /\ open' = TRUE /\ ses' = ses + 1 /\ UNCHANGED <<done, buf, out>> /\ H([op |-> "init", t |-> 0, k |-> 0])
Close == open /\ (\A t \in Threads : buf[t] = 0) /\ open' = FALSE /\ UNCHANGED <<done, buf, out, ses>> /\ H([op |-> "close", t |-> 0, k |-> 0])
Compose(t) == /\ open /\ buf[t] = 0 /\ done[t] < N /\ done' = [done EXCEPT ![t] = @ + 1] /\ buf' = [buf EXCEPT ![t] = done'[t]]
              /\ UNCHANGED <<out, open, ses>> /\ \E k \in Kinds : H([op |-> "write", t |-> t, k |-> k])
Hand(t) == buf[t] # 0 /\ out' = Append(out, <<t, buf[t]>>) /\ buf' = [buf EXCEPT ![t] = 0] /\ UNCHANGED <<done, open, ses, hist>>
Next == Open \/ Close \/ \E t \in Threads : Compose(t) \/ Hand(t)
Spec == Init /\ [][Next]_vars
Of(t) == SelectSeq(out, LAMBDA e : e[1] = t)
Inv == /\ \A t \in Threads : Of(t) = [i \in 1..(done[t] - (IF buf[t] = 0 THEN 0 ELSE 1)) |-> <<t, i>>]
       /\ Len(out) = Cardinality({x \in Threads \X (1..N) : x[2] <= done[x[1]] /\ buf[x[1]] # x[2]})
=============================================================================
