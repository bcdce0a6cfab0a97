------------------------------- MODULE CluModel -------------------------------
(* Propagation from the youngest cluster to the root: what the root is handed  *)
(* is the best selection of disjoint clusters, by constraints first, then by   *)
(* stability, and a cluster is preferred to an equally good selection below.   *)
EXTENDS Clu, Json
CONSTANTS N, Stabs, Cons, Deaths, Emit
VARIABLES c, k
vars == <<c, k>>
Trees == {f \in [2..N -> 1..(N - 1)] : \A i \in 2..N : f[i] < i}
Kids(f) == {f[i] : i \in DOMAIN f}
Mk(f, s, q, d) == [i \in 1..N |-> [New(i, IF i = 1 THEN -1 ELSE f[i], 0, 0) EXCEPT !.s = s[i], !.nc = q[i], !.d = d[i], !.ch = IF i \in Kids(f) THEN 1 ELSE 0]]
Init == /\ k = N
        /\ \E f \in Trees, s \in [2..N -> Stabs], q \in [2..N -> Cons], d \in [2..N -> Deaths] :
             c = Mk(f, [i \in 1..N |-> IF i = 1 THEN 0 ELSE s[i]], [i \in 1..N |-> IF i = 1 THEN 0 ELSE q[i]], [i \in 1..N |-> IF i = 1 THEN 0 ELSE d[i]])
        /\ Emit => PrintT("SEQ " \o ToJson([i \in 1..N |-> <<c[i].p, c[i].s, c[i].nc, c[i].d>>]))
Next == k >= 1 /\ c' = Propagate(c, k) /\ k' = k - 1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Anc(_)
Anc(i) == IF c[i].p < 0 THEN {} ELSE {c[i].p} \cup Anc(c[i].p)
Antichain(S) == \A i, j \in S : i \notin Anc(j)
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + Sum(S \ {i}, f)
NC == [i \in 1..N |-> c[i].nc]
ST == [i \in 1..N |-> c[i].s]
Leaves(i) == {j \in 1..N : c[j].ch = 0 /\ (j = i \/ i \in Anc(j))}
Down(i) == {j \in 1..N : i \in Anc(j)}
(* selections that leave no branch of the tree out, as propagation makes them *)
Covers(S, T) == \A j \in T : c[j].ch = 0 => \E i \in S : i = j \/ i \in Anc(j)
Best == k = 0 =>
    LET R == c[1]
        all == {S \in SUBSET (2..N) : Antichain(S)}
    IN \/ N = 1
       \/ /\ R.de \in all /\ R.pc = Sum(R.de, NC) /\ R.ps = Sum(R.de, ST)
          /\ \A S \in all : Sum(S, NC) < R.pc \/ (Sum(S, NC) = R.pc /\ Sum(S, ST) <= R.ps)
          (* the older cluster wins a tie *)
          /\ \A i \in R.de : \A S \in SUBSET Down(i) : Antichain(S) => (Sum(S, NC) < c[i].nc \/ (Sum(S, NC) = c[i].nc /\ Sum(S, ST) <= c[i].s))
          /\ \A i \in (2..N) \ R.de : (R.de \cap Down(i) # {} /\ Anc(i) \cap R.de = {}) =>
                 (Sum(R.de \cap Down(i), NC) > c[i].nc \/ (Sum(R.de \cap Down(i), NC) = c[i].nc /\ Sum(R.de \cap Down(i), ST) > c[i].s))
Lowest == k = 0 => \A i \in 1..N : c[i].ld = Min({c[j].d : j \in Leaves(i)})
Ends == <>(k = 0)
=============================================================================
