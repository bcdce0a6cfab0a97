-------------------------------- MODULE Graph --------------------------------
(* Graphs: a sequence of weighted edges <<a, b, w>> and, for every vertex, a   *)
(* bag of adjacent vertices (as a sequence whose order carries no meaning).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) : Count(s, x) = Count(t, x)
Ascending(es, lo, hi) == \A i \in lo..(hi - 1) : es[i][3] <= es[i+1][3]          \* positions from 1
Exchange(es, i, j) == [k \in DOMAIN es |-> IF k = i THEN es[j] ELSE IF k = j THEN es[i] ELSE es[k]]
RECURSIVE Fill(_, _, _)
Fill(es, i, adj) == IF i > Len(es) THEN adj
    ELSE LET a == es[i][1]
             b == es[i][2]
             one == [adj EXCEPT ![a] = Append(@, b)]
         IN Fill(es, i + 1, IF a = b THEN one ELSE [one EXCEPT ![b] = Append(@, a)])
(* adj[v]: vertices are 0..nv-1 *)
Adjacency(nv, es) == Fill(es, 1, [v \in 0..(nv - 1) |-> <<>>])
Without(s, x) == IF x \in Rng(s) THEN LET i == CHOOSE i \in DOMAIN s : s[i] = x IN [k \in 1..(Len(s) - 1) |-> IF k < i THEN s[k] ELSE s[k+1]] ELSE s
Removed(adj, a, b) == IF a = b THEN [adj EXCEPT ![a] = Without(@, a)] ELSE [adj EXCEPT ![a] = Without(@, b), ![b] = Without(@, a)]
SameAdj(x, y) == DOMAIN x = DOMAIN y /\ \A v \in DOMAIN x : SameBag(x[v], y[v])
(* edges lo..hi (positions from 0) in another order, all others where they were *)
Within(es, fs, lo, hi) == /\ Len(es) = Len(fs)
                          /\ \A i \in 1..Len(es) : (i - 1 < lo \/ i - 1 > hi) => es[i] = fs[i]
                          /\ SameBag(SubSeq(es, lo + 1, hi + 1), SubSeq(fs, lo + 1, hi + 1))
Sorted(es, fs, lo, hi) == Within(es, fs, lo, hi) /\ Ascending(fs, lo + 1, hi + 1)
(* edges split at r by the weight w of the edge at position p *)
Split(es, fs, lo, hi, p, r) == /\ Within(es, fs, lo, hi) /\ r \in lo..hi /\ fs[r+1][3] = es[p+1][3]
                               /\ \A i \in lo..(r - 1) : fs[i+1][3] <= fs[r+1][3]
                               /\ \A i \in (r + 1)..hi : fs[i+1][3] >= fs[r+1][3]
=============================================================================
