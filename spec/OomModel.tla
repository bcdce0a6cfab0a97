------------------------------ MODULE OomModel ------------------------------
(* A collection whose operations ask for memory block by block, and may be    *)
(* denied any block (and from then on all others). What an operation has got  *)
(* it gives back when it is denied the rest; only when it has all it needs    *)
(* does it change anything. Blocks are counted; what the collection holds is  *)
(* a sequence (lists) or a set (set, table).                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, Vals, MaxOps, Emit
VARIABLES up, x, cap, live, op, got, cut, res, hist
vars == <<up, x, cap, live, op, got, cut, res, hist>>
core == <<up, x, cap, live, op, got, cut, res, Len(hist)>>
None == [op |-> "none"]
Init == up = FALSE /\ x = <<>> /\ cap = 0 /\ live = 0 /\ op = None /\ got = 0 /\ cut = FALSE /\ res = 1 /\ hist = <<>>
Rng(s) == {s[i] : i \in DOMAIN s}
N == Len(x)
(* blocks held by a collection of that kind, of n elements *)
Held(n) == CASE Kind \in {"al", "set"} -> 2 [] Kind = "ll" -> 1 + 2*n [] Kind = "ht" -> 4 + 3*n
Fresh(o) == o.op = "add" /\ (Kind \in {"al", "ll"} \/ o.v \notin Rng(x))
Need(o) == CASE o.op = "init" -> Held(0)
             [] o.op = "grow" -> 1
             [] o.op = "clear" -> (CASE Kind = "ll" -> 0 [] Kind = "ht" -> 2 [] OTHER -> 1)
             [] o.op = "destroy" -> IF Kind = "ht" THEN 2 ELSE 0
             [] o.op = "add" /\ Fresh(o) -> (IF Kind # "ll" /\ N = cap THEN 1 ELSE 0) + (CASE Kind = "ht" -> 3 [] Kind = "ll" -> 2 [] OTHER -> 0)
             [] o.op = "add" -> IF Kind = "ht" THEN 1 ELSE 0          \* a present key: room to hand out the former value
             [] OTHER -> 0
(* an operation that does its work although it is denied memory it could do without *)
Anyway(o) == o.op = "clear" /\ Kind \in {"al", "set"}
Pre(o) == CASE o.op = "init" -> ~up [] o.op = "grow" -> up /\ Kind = "al" [] o.op = "drop" -> up /\ o.v \in Rng(x) [] OTHER -> up
Ops == {[op |-> o] : o \in {"init", "grow", "clear", "destroy"}} \cup {[op |-> o, v |-> v] : o \in {"add", "drop"}, v \in Vals}
Begin(o) == /\ op = None /\ Len(hist) < MaxOps /\ Pre(o) /\ op' = o /\ got' = 0 /\ cut' = FALSE
            /\ UNCHANGED <<up, x, cap, live, res, hist>>
Get == op # None /\ ~cut /\ got < Need(op) /\ got' = got + 1 /\ live' = live + 1 /\ UNCHANGED <<up, x, cap, op, cut, res, hist>>
End(r, d, on) == /\ res' = r /\ op' = None /\ got' = 0 /\ cut' = FALSE /\ hist' = Append(hist, op @@ [den |-> d, on |-> on])
                 /\ (Emit => PrintT("SEQ " \o ToJson(hist')))
Without(s, v) == LET i == CHOOSE i \in DOMAIN s : s[i] = v /\ \A j \in 1..(i-1) : s[j] # v IN SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
Does == LET old == IF up THEN Held(N) ELSE 0 IN
    CASE op.op = "init" -> up' = TRUE /\ x' = <<>> /\ cap' = (IF Kind = "al" THEN 1 ELSE 2) /\ live' = live - got + Held(0)
      [] op.op = "destroy" -> up' = FALSE /\ x' = <<>> /\ cap' = 0 /\ live' = live - got - old
      [] op.op = "clear" -> up' = up /\ x' = <<>> /\ cap' = (IF cut THEN cap ELSE 1) /\ live' = live - got - old + Held(0)
      [] op.op = "grow" -> cap' = 2*cap /\ live' = live - got /\ UNCHANGED <<up, x>>
      [] op.op = "drop" -> x' = Without(x, op.v) /\ live' = live - old + Held(N-1) /\ UNCHANGED <<up, cap>>
      [] op.op = "add" -> IF Fresh(op) THEN x' = Append(x, op.v) /\ cap' = (IF N = cap THEN 2*cap ELSE cap) /\ live' = live - got - old + Held(N+1) /\ UNCHANGED up
                          ELSE live' = live - got /\ UNCHANGED <<up, x, cap>>
Commit == op # None /\ ~cut /\ got = Need(op) /\ Does /\ End(1, 0, 0)
Denied == op # None /\ ~cut /\ got < Need(op) /\ \E on \in {0, 1} :
          IF Anyway(op) THEN live' = live - got - Held(N) + Held(0) /\ x' = <<>> /\ UNCHANGED <<up, cap>> /\ End(1, got + 1, on)
          ELSE live' = live - got /\ UNCHANGED <<up, x, cap>> /\ End(0, got + 1, on)
Next == (\E o \in Ops : Begin(o)) \/ Get \/ Commit \/ Denied
Spec == Init /\ [][Next]_vars
Inv == /\ live = (IF up THEN Held(N) ELSE 0) + got                      \* nothing lost, nothing held twice
       /\ up /\ Kind # "ll" => N <= cap
       /\ Kind \in {"set", "ht"} => Cardinality(Rng(x)) = N
(* a denied operation leaves things as they were *)
Kept == [][(op # None /\ op' = None /\ res' = 0) => UNCHANGED <<up, x, cap>>]_vars
=============================================================================
