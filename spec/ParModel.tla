------------------------------ MODULE ParModel ------------------------------
(* Why C11 may be decided by looking at accesses and results: every pair of   *)
(* small programs over shared memory is executed in every interleaving.       *)
(* If no two accesses of different threads conflict (the same location, one a *)
(* write, no common lock), then without locks the final memory is the one of  *)
(* the sequential execution; with locks every critical section is atomic, and *)
(* a section that inserts into a set gives the same set in every order.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Locs,        \* shared locations
          Len1, Len2,  \* lengths of the programs of the two threads
          WithLocks
Threads == {1, 2}
(* an action: read a location into the register, write register+k, or add k to the set in a section *)
Acts == [op : {"r", "w"}, x : Locs, l : IF WithLocks THEN {FALSE, TRUE} ELSE {FALSE}]
        \cup (IF WithLocks THEN [op : {"ins"}, x : {0}, l : {TRUE}] ELSE {})
VARIABLES prog, pc, reg, mem, bag, lock
vars == <<prog, pc, reg, mem, bag, lock>>
Progs == [1..Len1 -> Acts] \X [1..Len2 -> Acts]
Init == /\ prog \in Progs /\ pc = <<1, 1>> /\ reg = <<0, 0>>
        /\ mem = [x \in Locs |-> x * 10] /\ bag = {} /\ lock = 0
L(t) == Len(prog[t])
A(t) == prog[t][pc[t]]
Val(t) == reg[t] + t + pc[t]
(* an action holding the lock takes it first; it is released after the action *)
Take(t) == /\ pc[t] <= L(t) /\ A(t).l /\ lock = 0 /\ lock' = t /\ UNCHANGED <<prog, pc, reg, mem, bag>>
Do(t) == /\ pc[t] <= L(t) /\ (A(t).l => lock = t)
         /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ lock' = IF lock = t THEN 0 ELSE lock
         /\ CASE A(t).op = "r" -> reg' = [reg EXCEPT ![t] = mem[A(t).x]] /\ UNCHANGED <<mem, bag>>
              [] A(t).op = "w" -> mem' = [mem EXCEPT ![A(t).x] = Val(t)] /\ UNCHANGED <<reg, bag>>
              [] OTHER -> bag' = bag \cup {t * 10 + pc[t]} /\ UNCHANGED <<reg, mem>>
         /\ UNCHANGED prog
Next == \E t \in Threads : Take(t) \/ Do(t)
Spec == Init /\ [][Next]_vars
Shares(a, b) == a.op \in {"r", "w"} /\ b.op \in {"r", "w"} /\ a.x = b.x /\ (a.op = "w" \/ b.op = "w")
Conflict == \E i \in 1..L(1), j \in 1..L(2) : Shares(prog[1][i], prog[2][j]) /\ ~(prog[1][i].l /\ prog[2][j].l)
(* no access under a lock is needed for the result if the threads share nothing they write *)
Disjoint == \A i \in 1..L(1), j \in 1..L(2) : ~Shares(prog[1][i], prog[2][j])
RECURSIVE Exec(_, _, _, _, _)
Exec(t, k, m, r, b) ==
    IF k > L(t) THEN [m |-> m, b |-> b]
    ELSE LET a == prog[t][k] IN
         CASE a.op = "r" -> Exec(t, k + 1, m, m[a.x], b)
           [] a.op = "w" -> Exec(t, k + 1, [m EXCEPT ![a.x] = r + t + k], r, b)
           [] OTHER -> Exec(t, k + 1, m, r, b \cup {t * 10 + k})
Sequential == LET s == Exec(1, 1, [x \in Locs |-> x * 10], 0, {}) IN Exec(2, 1, s.m, 0, s.b)
Done == pc[1] > L(1) /\ pc[2] > L(2)
Deterministic == Done /\ Disjoint => mem = Sequential.m /\ bag = Sequential.b
NoConflictNoLocks == (Done /\ ~WithLocks /\ ~Conflict) => mem = Sequential.m
Sections == Done => bag = Sequential.b                \* insertions into a set commute
Exclusive == lock \in 0..2
=============================================================================
