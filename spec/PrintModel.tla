----------------------------- MODULE PrintModel -----------------------------
(* Histories of results and their export: objects compute results of several  *)
(* versions, export them under names, and files are read back at any time.    *)
(* A file is written in two halves, csv and vis, as the code does.            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Objs, Versions, Names, Shut, Depth, Emit      \* Shut: names that can not be opened
VARIABLES ver, csv, vis, last, hist
vars == <<ver, csv, vis, last, hist>>
None == -1
Init == ver = [o \in Objs |-> None] /\ csv = [n \in Names |-> None] /\ vis = [n \in Names |-> None] /\ last = [n \in Names |-> None] /\ hist = <<>>
Compute(o, v) == /\ ver' = [ver EXCEPT ![o] = v] /\ UNCHANGED <<csv, vis, last>>
                 /\ hist' = Append(hist, [op |-> "compute", o |-> o, v |-> v, n |-> None])
Export(o, n) == /\ ver[o] # None
                /\ IF n \in Shut THEN UNCHANGED <<csv, vis, last>>
                   ELSE vis' = [vis EXCEPT ![n] = ver[o]] /\ csv' = [csv EXCEPT ![n] = ver[o]] /\ last' = [last EXCEPT ![n] = ver[o]]
                /\ hist' = Append(hist, [op |-> "export", o |-> o, v |-> None, n |-> n]) /\ UNCHANGED ver
Read(n) == /\ hist' = Append(hist, [op |-> "read", o |-> 0, v |-> None, n |-> n]) /\ UNCHANGED <<ver, csv, vis, last>>
Next == \/ \E o \in Objs, v \in Versions : Compute(o, v)
        \/ \E o \in Objs, n \in Names : Export(o, n)
        \/ \E n \in Names : Read(n)
Spec == Init /\ [][Next]_vars
Short == Len(hist) < Depth
Agree == \A n \in Names : csv[n] = vis[n] /\ csv[n] = last[n] /\ (n \in Shut => csv[n] = None)
Done == (Emit /\ Len(hist) = Depth) => PrintT("SEQ " \o ToJson(hist))
=============================================================================
