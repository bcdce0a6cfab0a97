------------------------------ MODULE HdbBase ------------------------------
(* What HDBSCAN* is supposed to compute, as mathematics over a finite set of  *)
(* points 1..n with integer levels.  A level stands for a distance and is     *)
(* order-isomorphic to it: on integer data it is the squared distance in grid *)
(* units, on real data the rank of the distance among all distances.  INF     *)
(* stands for the largest value of the distance type (no such neighbour).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

INF   == 2147483647      \* the level of D_MAX
NANL  == -8              \* not a number (birth level of the root)
STINF == 2147483646      \* infinite stability
STNAN == -2147483646     \* undefined stability (the root)
SCALE == 32768           \* fixed point unit of reciprocal levels

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a
Rng(s)     == {s[i] : i \in DOMAIN s}
Iota(n)    == [k \in 1..n |-> k]
SeqSum(s)  == FoldLeft(LAMBDA acc, e : acc + e, 0, s)

(* ------------------------------------------------ distances, core distances *)
SqDist(p, q) == FoldLeftDomain(LAMBDA acc, k : acc + (p[k]-q[k])*(p[k]-q[k]), 0, p)
DistMatrix(x) == [i \in 1..Len(x) |-> [j \in 1..Len(x) |-> SqDist(x[i], x[j])]]

(* distance to the (mp-1)-th nearest point other than itself *)
CoreOf(D, i, mp) == IF Len(D) < mp THEN INF ELSE SortSeq(D[i], LAMBDA a, b : a < b)[mp]
CoreDists(D, mp) == [i \in 1..Len(D) |-> CoreOf(D, i, mp)]
(* the same, characterised by counting *)
IsCore(D, i, mp, v) ==
    LET n == Len(D)
        others == (1..n) \ {i}
    IN IF n < mp THEN v = INF
       ELSE /\ Cardinality({j \in others : D[i][j] < v}) < mp - 1
            /\ Cardinality({j \in others : D[i][j] <= v}) >= mp - 1
            /\ \E j \in others : D[i][j] = v

MRD(D, c, i, j) == Max2(D[i][j], Max2(c[i], c[j]))

(* --------------------------------- density-connectivity at a level: by search *)
RECURSIVE Reach(_, _, _, _)
Reach(D, c, S, w) ==      \* points connected to S by mutual reachability < w
    LET N == {j \in 1..Len(D) : j \notin S /\ \E i \in S : MRD(D, c, i, j) < w}
    IN IF N = {} THEN S ELSE Reach(D, c, S \cup N, w)

(* ------------------- a minimum spanning tree and its path-maximum (minimax) *)
(* T[v][u] for u attached before v: the least level L such that u and v are    *)
(* connected by mutual reachability <= L.                                     *)
TreeStep(D, c, acc) ==
    LET n  == Len(D)
        u  == FoldLeft(LAMBDA b, j : IF acc.ord[j] # 0 THEN b
                                     ELSE IF b = 0 THEN j
                                     ELSE IF acc.best[j] < acc.best[b] THEN j ELSE b, 0, Iota(n))
        a  == acc.from[u]
        w  == acc.best[u]
        k  == acc.k + 1
        Ua(j) == IF j = a THEN 0 ELSE IF acc.ord[a] > acc.ord[j] THEN acc.T[a][j] ELSE acc.T[j][a]
        row == TLCEval([j \in 1..n |-> IF acc.ord[j] # 0 THEN Max2(Ua(j), w) ELSE 0])
        closer == TLCEval([j \in 1..n |-> acc.ord[j] = 0 /\ j # u /\ MRD(D, c, u, j) < acc.best[j]])
    IN TLCEval([k    |-> k,
                ord  |-> [acc.ord EXCEPT ![u] = k],
                best |-> [j \in 1..n |-> IF closer[j] THEN MRD(D, c, u, j) ELSE acc.best[j]],
                from |-> [j \in 1..n |-> IF closer[j] THEN u ELSE acc.from[j]],
                T    |-> [acc.T EXCEPT ![u] = row],
                E    |-> Append(acc.E, <<a, u, w>>)])

SpanTree(D, c) ==
    LET n == Len(D)
        start == TLCEval([k |-> 1, ord |-> [j \in 1..n |-> IF j = n THEN 1 ELSE 0],
                  best |-> [j \in 1..n |-> IF j = n THEN 0 ELSE MRD(D, c, n, j)],
                  from |-> [j \in 1..n |-> n],
                  T |-> [j \in 1..n |-> <<>>], E |-> <<>>])
    IN FoldLeft(LAMBDA acc, k : TreeStep(D, c, acc), start, [k \in 1..(n-1) |-> k])

(* minimax level between two points; a point is connected to itself above its core distance *)
U(S, c, i, j) == IF i = j THEN c[i] ELSE IF S.ord[i] > S.ord[j] THEN S.T[i][j] ELSE S.T[j][i]

(* ----------------------------------------------------------- the hierarchy *)
(* hs.lab[i]  current cluster of point i (0 = noise)                          *)
(* hs.cl[k]   cluster with label k: parent p, birth b, death d, row o after   *)
(*            which it appears, members mem at birth, departures ev           *)
(*            (<<count, level>>), points vc lost to noise, ch: it has split    *)
(* hs.row    levels recorded so far; hs.sig: the last cut made new clusters   *)
HInit(n) == [lab |-> [i \in 1..n |-> 1], row |-> 0, last |-> INF, sig |-> TRUE,
             nlv |-> [i \in 1..n |-> -1], nlc |-> [i \in 1..n |-> 0],
             cl |-> << [p |-> 0, b |-> NANL, d |-> -1, o |-> 0, mem |-> 1..n,
                        ev |-> <<>>, vc |-> {}, ch |-> FALSE] >>]

Members(lab, k) == {i \in DOMAIN lab : lab[i] = k}
Diam(S, c, C) == LET p == CHOOSE p \in C : TRUE IN
                 FoldSet(LAMBDA j, acc : Max2(acc, U(S, c, p, j)), 0, C)
Comp(S, c, C, p, w) == {j \in C : j = p \/ U(S, c, p, j) < w}
RECURSIVE Split(_, _, _, _)
Split(S, c, C, w) ==        \* components of C under mutual reachability < w
    IF C = {} THEN {}
    ELSE LET p == CHOOSE p \in C : TRUE
             K == TLCEval(Comp(S, c, C, p, w))
         IN {K} \cup Split(S, c, C \ K, w)

Live(hs) == Rng(hs.lab) \ {0}
(* the next level at which a current cluster loses points; -1 if all is noise *)
NextLevel(hs, S, c) == FoldSet(LAMBDA k, acc : Max2(acc, Diam(S, c, Members(hs.lab, k))), -1, Live(hs))

(* what happens to the clusters when everything at level >= w is cut *)
Effects(hs, S, c, w, mp) ==
    {LET C  == Members(hs.lab, k)
         Ks == TLCEval(Split(S, c, C, w))
         V  == {K \in Ks : Cardinality(K) >= mp}
     IN [k |-> k, noise |-> Ks \ V, valid |-> V, split |-> Cardinality(V) >= 2]
       : k \in {q \in Live(hs) : Diam(S, c, Members(hs.lab, q)) >= w}}

Born(effs) == UNION {e.valid : e \in {f \in effs : f.split}}

(* al is an admissible labelling of the points after the cut: noise 0, a      *)
(* shrunk cluster keeps its label, the children of a split get fresh          *)
(* consecutive labels, everything else is unchanged                           *)
AfterOk(hs, effs, al) ==
    LET next == Len(hs.cl) + 1
        born == Born(effs)
        touched == UNION {Members(hs.lab, e.k) : e \in effs}
        first(K) == al[CHOOSE i \in K : TRUE]
    IN /\ Len(al) = Len(hs.lab)
       /\ \A i \in (DOMAIN hs.lab) \ touched : al[i] = hs.lab[i]
       /\ \A e \in effs :
            /\ \A K \in e.noise : \A i \in K : al[i] = 0
            /\ ~e.split => \A K \in e.valid : \A i \in K : al[i] = e.k
       /\ \A K \in born : \A i \in K : al[i] = first(K)
       /\ {first(K) : K \in born} = next..(next + Cardinality(born) - 1)

(* A compact hierarchy records a level only if a cluster was made at the cut   *)
(* before it (or it is the first) or is made at its own.                       *)
Kept(hs, effs, compact) == ~compact \/ hs.sig \/ Born(effs) # {}

(* the labels after a cut that makes no clusters *)
Shrunk(hs, effs) ==
    LET gone == UNION {UNION e.noise : e \in effs}
    IN [i \in DOMAIN hs.lab |-> IF i \in gone THEN 0 ELSE hs.lab[i]]

AfterCut(hs, effs, al, w, compact) ==
    LET next == Len(hs.cl) + 1
        born == Born(effs)
        nb   == Cardinality(born)
        byLab(q) == CHOOSE K \in born : al[CHOOSE i \in K : TRUE] = q
        parentOf(K) == (CHOOSE e \in effs : K \in e.valid).k
        lost == [k \in {e.k : e \in effs} |-> CHOOSE e \in effs : e.k = k]
        noisy == UNION {UNION e.noise : e \in effs}
        row == IF Kept(hs, effs, compact) THEN hs.row + 1 ELSE hs.row
    IN [lab |-> al, row |-> row, last |-> w, sig |-> born # {},
        nlv |-> [i \in DOMAIN al |-> IF i \in noisy THEN w ELSE hs.nlv[i]],
        nlc |-> [i \in DOMAIN al |-> IF i \in noisy THEN hs.lab[i] ELSE hs.nlc[i]],
        cl |-> [k \in 1..(Len(hs.cl) + nb) |->
            IF k >= next
            THEN [p |-> parentOf(byLab(k)), b |-> w, d |-> -1, o |-> row, mem |-> byLab(k),
                  ev |-> <<>>, vc |-> {}, ch |-> FALSE]
            ELSE IF k \notin DOMAIN lost THEN hs.cl[k]
            ELSE LET e == lost[k]
                     gone == SetToSeq(e.noise \cup (IF e.split THEN e.valid ELSE {}))
                     dead == e.split \/ e.valid = {}
                 IN [hs.cl[k] EXCEPT
                       !.ev = @ \o [q \in 1..Len(gone) |-> <<Cardinality(gone[q]), w>>],
                       !.vc = @ \cup UNION e.noise,
                       !.ch = @ \/ e.split,
                       !.d  = IF dead THEN w ELSE @]]]

(* ------------------------------------------------- stability and selection *)
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF lo >= hi THEN lo          \* greatest r in lo..hi with r*r <= x
                   ELSE LET m == (lo + hi + 1) \div 2
                        IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m - 1)
ISqrt(x) == Root(x, 0, 32768)

(* SCALE times the reciprocal of the distance with squared distance w *)
RecipSq(w) == IF w = INF THEN 0 ELSE ISqrt(1073741824 \div w)
(* levels whose reciprocal is exact in fixed point *)
Powers4 == {1, 4, 16, 64, 256, 1024, 4096, 16384, 65536, 262144, 1048576}

(* relative excess of mass of cluster k with reciprocals R *)
Stab(cl, k, R(_)) ==
    IF cl[k].b = NANL THEN STNAN
    ELSE IF \E q \in DOMAIN cl[k].ev : cl[k].ev[q][2] = 0 THEN STINF
    ELSE FoldLeft(LAMBDA acc, e : acc + e[1] * (R(e[2]) - R(cl[k].b)), 0, cl[k].ev)

Children(cl, k) == {q \in 1..Len(cl) : cl[q].p = k}
RECURSIVE Descendants(_, _)
Descendants(cl, k) == LET C == Children(cl, k) IN C \cup UNION {Descendants(cl, q) : q \in C}

AddSt(a, b) == IF a = STINF \/ b = STINF THEN STINF ELSE a + b

(* Bottom-up choice of the most stable non-overlapping clusters: a cluster is *)
(* taken instead of its chosen descendants iff its own stability is at least  *)
(* theirs; near ties that integer arithmetic cannot decide go to hint(k).     *)
Choose(cl, R(_), exact, hint(_)) ==
    LET m == Len(cl)
        step(acc, idx) ==
          LET k    == m + 1 - idx
              own  == Stab(cl, k, R)
              C    == Children(cl, k)
              prop == FoldSet(LAMBDA q, s : AddSt(s, acc.val[q]), 0, C)
              tol  == 2 * Cardinality(cl[k].mem) + 2
              own1 == \/ C = {}
                      \/ own = STINF
                      \/ /\ prop # STINF /\ own # STINF
                         /\ IF exact \/ Abs(own - prop) > tol THEN own >= prop ELSE hint(k)
              sub  == UNION {acc.sel[q] : q \in C}
          IN TLCEval(IF k = 1 THEN [val |-> [acc.val EXCEPT ![k] = 0], prop |-> [acc.prop EXCEPT ![k] = prop],
                                    sel |-> [acc.sel EXCEPT ![k] = sub], own |-> [acc.own EXCEPT ![k] = own]]
                     ELSE [val  |-> [acc.val  EXCEPT ![k] = IF own1 THEN own ELSE prop],
                           prop |-> [acc.prop EXCEPT ![k] = prop],
                           sel  |-> [acc.sel  EXCEPT ![k] = IF own1 THEN {k} ELSE sub],
                           own  |-> [acc.own  EXCEPT ![k] = own]])
        zero == [val |-> [q \in 1..m |-> 0], prop |-> [q \in 1..m |-> 0],
                 sel |-> [q \in 1..m |-> {}], own |-> [q \in 1..m |-> 0]]
    IN FoldLeft(step, zero, Iota(m))

FlatLabels(cl, sel, n) ==
    [i \in 1..n |-> IF \E k \in sel : i \in cl[k].mem THEN CHOOSE k \in sel : i \in cl[k].mem ELSE 0]

(* lowest level at which the cluster or one of its descendants dies *)
LowestDeath(cl, k) == FoldSet(LAMBDA q, acc : Min2(acc, cl[q].d), cl[k].d, Descendants(cl, k))
=============================================================================
