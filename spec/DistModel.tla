------------------------------ MODULE DistModel ------------------------------
(* Every history of calls on several distance objects, with the blocks of      *)
(* memory they own: a block is owned by one object, a released one by none,    *)
(* and what is left when all are destroyed is nothing. One history per         *)
(* transition is printed, to be replayed in the real code.                     *)
EXTENDS Dist, Json
CONSTANTS Objs, Datas, NNs, Emit
VARIABLES x, own, next, live, hist
vars == <<x, own, next, live, hist>>
Init == x = [h \in Objs |-> None] /\ own = [h \in Objs |-> {}] /\ next = 1 /\ live = {} /\ hist = <<>>
Ops == {[op |-> o, k |-> 0, nn |-> 0] : o \in {"init", "clean", "destroy"}}
       \cup {[op |-> "compute", k |-> d, nn |-> m] : d \in Datas, m \in NNs} \cup {[op |-> "cores", k |-> 0, nn |-> m] : m \in NNs}
(* blocks have two slots per object: the arrays of the result *)
Do(h, o) ==
    /\ May(x[h], o)
    /\ x' = [x EXCEPT ![h] = After(x[h], o)]
    /\ LET keep == IF o.op \in {"compute", "clean", "destroy"} THEN {} ELSE own[h]
           new  == IF o.op = "compute" THEN {<<h, next>>, <<h, next + 1>>} ELSE {}
       IN /\ own' = [own EXCEPT ![h] = keep \cup new]
          /\ live' = (live \ (own[h] \ keep)) \cup new
          /\ next' = IF new = {} THEN next ELSE (next + 2) % 8
    /\ hist' = Append(hist, [h |-> h, op |-> o.op, k |-> o.k, nn |-> o.nn])
    /\ Emit => PrintT("SEQ " \o ToJson(hist'))
Next == \E h \in Objs, o \in Ops : Do(h, o)
Spec == Init /\ [][Next]_vars
Owned == /\ live = UNION {own[h] : h \in Objs}
         /\ \A g, h \in Objs : g # h => own[g] \cap own[h] = {}
         /\ \A h \in Objs : (x[h].st = "full") = (own[h] # {})
Apart == [][\E h \in Objs : \A g \in Objs \ {h} : x[g] = x'[g] /\ own[g] = own'[g]]_<<x, own>>
View == x
=============================================================================
