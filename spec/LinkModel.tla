----------------------------- MODULE LinkModel -----------------------------
(* The linked list as it is stored: nodes with two links, a head and a tail.  *)
EXTENDS Coll, Json
CONSTANTS Vals, MaxLen, Emit
VARIABLES val, nx, pv, head, tail, size, abs, hist
vars == <<val, nx, pv, head, tail, size, abs, hist>>
core == <<val, nx, pv, head, tail, size, abs>>
Ids == 1..MaxLen
Used == {i \in Ids : val[i] # 0}
New == CHOOSE i \in Ids : val[i] = 0 /\ \A j \in Ids : val[j] = 0 => i <= j
RECURSIVE Fw(_, _)
Fw(i, k) == IF i = 0 \/ k = 0 THEN <<>> ELSE <<val[i]>> \o Fw(nx[i], k - 1)
RECURSIVE Bw(_, _)
Bw(i, k) == IF i = 0 \/ k = 0 THEN <<>> ELSE <<val[i]>> \o Bw(pv[i], k - 1)
RECURSIVE Look(_, _)
Look(i, v) == IF i = 0 THEN 0 ELSE IF val[i] = v THEN i ELSE Look(nx[i], v)
Unhook(i) == /\ head' = (IF pv[i] # 0 THEN head ELSE nx[i])
             /\ tail' = (IF nx[i] # 0 THEN tail ELSE pv[i])
             /\ nx' = [j \in Ids |-> IF j = i THEN 0 ELSE IF j = pv[i] THEN nx[i] ELSE nx[j]]
             /\ pv' = [j \in Ids |-> IF j = i THEN 0 ELSE IF j = nx[i] THEN pv[i] ELSE pv[j]]
             /\ val' = [val EXCEPT ![i] = 0] /\ size' = size - 1
Same == UNCHANGED <<val, nx, pv, head, tail, size>>
Ops == [op : {"front", "tail", "nfront", "ntail", "lookup", "take", "remove"}, v : Vals] \cup [op : {"at"}, a : 0..MaxLen]
       \cup [op : {"gethead", "gettail", "notempty", "clear"}]
Do(o) ==
    CASE o.op \in {"front", "nfront"} -> LET i == New IN
           /\ val' = [val EXCEPT ![i] = o.v] /\ size' = size + 1 /\ head' = i
           /\ nx' = [nx EXCEPT ![i] = head] /\ pv' = [j \in Ids |-> IF j = i THEN 0 ELSE IF j = head THEN i ELSE pv[j]]
           /\ tail' = (IF size = 0 THEN i ELSE tail)
      [] o.op \in {"tail", "ntail"} -> LET i == New IN
           /\ val' = [val EXCEPT ![i] = o.v] /\ size' = size + 1 /\ tail' = i
           /\ pv' = [pv EXCEPT ![i] = tail] /\ nx' = [j \in Ids |-> IF j = i THEN 0 ELSE IF j = tail THEN i ELSE nx[j]]
           /\ head' = (IF size = 0 THEN i ELSE head)
      [] o.op \in {"take", "remove"} -> LET i == Look(head, o.v) IN IF i = 0 THEN Same ELSE Unhook(i)
      [] o.op = "clear" -> /\ val' = [j \in Ids |-> 0] /\ nx' = val' /\ pv' = val' /\ head' = 0 /\ tail' = 0 /\ size' = 0
      [] OTHER -> Same
Init == /\ val = [i \in Ids |-> 0] /\ nx = val /\ pv = val /\ head = 0 /\ tail = 0 /\ size = 0 /\ abs = <<>> /\ hist = <<[op |-> "init"]>>
Next == \E o \in Ops : /\ size = MaxLen => o.op \notin {"front", "tail", "nfront", "ntail"}
                       /\ Do(o) /\ hist' = Append(hist, o)
                       /\ abs' = (CHOOSE x \in LinkDo(abs, o) : TRUE).st
                       /\ Emit => PrintT("SEQ " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
Inv == /\ Fw(head, MaxLen + 1) = abs
       /\ Bw(tail, MaxLen + 1) = [i \in 1..Len(abs) |-> abs[Len(abs) + 1 - i]]
       /\ size = Len(abs) /\ Cardinality(Used) = size
=============================================================================
