------------------------------ MODULE HdbModel ------------------------------
(* The algorithm as the library runs it, one step at a time: the spanning     *)
(* tree grows from the last point, edges are cut from the heaviest level      *)
(* down, components are re-explored in what is left of the tree, clusters are *)
(* propagated children first, the flat labels and the outlier scores are read *)
(* off.  Every choice the code makes among ties is left open.  The invariants *)
(* compare it with the declarative definitions of HdbBase for every data set  *)
(* and every minimum number of points within the constants.                   *)
EXTENDS HdbBase

CONSTANTS Ns, Coords, MPs, Reruns, Compact

VARIABLES x, mp, D, c, ph, att, best, from, E, G, hs, pend, ord, sel, prop, val, rows, runs
vars == <<x, mp, D, c, ph, att, best, from, E, G, hs, pend, ord, sel, prop, val, rows, runs>>

n == Len(D)
P == 1..n

(* one-dimensional data sets, sorted: order independence is a property of its own *)
Sorted(s) == \A i \in 1..(Len(s)-1) : s[i] <= s[i+1]

StartRun(d, m) ==
    /\ D' = d /\ mp' = m
    /\ c' = CoreDists(d, m)
    /\ ph' = "prim"
    /\ att' = <<Len(d)>>
    /\ best' = [j \in 1..Len(d) |-> IF j = Len(d) THEN 0 ELSE MRD(d, c', Len(d), j)]
    /\ from' = [j \in 1..Len(d) |-> Len(d)]
    /\ E' = {} /\ G' = {}
    /\ rows' = <<>> /\ hs' = HInit(Len(d)) /\ pend' = {} /\ ord' = <<>> /\ sel' = <<>> /\ prop' = <<>> /\ val' = <<>>

Init ==
    /\ \E k \in Ns : x \in {s \in [1..k -> Coords] : Sorted(s)}
    /\ D = [i \in 1..Len(x) |-> [j \in 1..Len(x) |-> (x[i]-x[j])*(x[i]-x[j])]]
    /\ mp \in MPs
    /\ c = CoreDists(D, mp)
    /\ ph = "prim" /\ att = <<Len(x)>>
    /\ best = [j \in 1..Len(x) |-> IF j = Len(x) THEN 0 ELSE MRD(D, c, Len(x), j)]
    /\ from = [j \in 1..Len(x) |-> Len(x)]
    /\ E = {} /\ G = {} /\ rows = <<>> /\ hs = HInit(Len(x)) /\ pend = {} /\ ord = <<>> /\ sel = <<>> /\ prop = <<>> /\ val = <<>>
    /\ runs = 0

Un == P \ Rng(att)
Attach ==
    /\ ph = "prim" /\ Un # {}
    /\ \E u \in Un :
        /\ \A v \in Un : best[u] <= best[v]
        /\ att' = Append(att, u)
        /\ E' = E \cup {<<from[u], u, best[u]>>}
        /\ best' = [j \in P |-> IF j \in Un \ {u} /\ MRD(D, c, u, j) < best[j] THEN MRD(D, c, u, j) ELSE best[j]]
        /\ from' = [j \in P |-> IF j \in Un \ {u} /\ MRD(D, c, u, j) < best[j] THEN u ELSE from[j]]
    /\ UNCHANGED <<x, mp, D, c, ph, G, hs, pend, ord, sel, prop, val, rows, runs>>
PrimDone ==
    /\ ph = "prim" /\ Un = {}
    /\ G' = E \cup {<<i, i, c[i]>> : i \in P}
    /\ ph' = "cut"
    /\ UNCHANGED <<x, mp, D, c, att, best, from, E, hs, pend, ord, sel, prop, val, rows, runs>>

(* components of C in the graph that is left *)
Nb(g, i) == {j \in P : \E e \in g : (e[1] = i /\ e[2] = j) \/ (e[2] = i /\ e[1] = j)}
RECURSIVE Grow(_, _)
Grow(g, S) == LET N == UNION {Nb(g, i) : i \in S} \ S IN IF N = {} THEN S ELSE Grow(g, S \cup N)
RECURSIVE CompsOf(_, _)
CompsOf(g, C) == IF C = {} THEN {} ELSE LET K == Grow(g, {CHOOSE p \in C : TRUE}) IN {K} \cup CompsOf(g, C \ K)

MaxW(g) == FoldSet(LAMBDA e, a : Max2(a, e[3]), -1, g)
(* cut every edge of the greatest remaining level *)
Cut ==
    /\ ph = "cut" /\ G # {}
    /\ LET w   == MaxW(G)
           rem == {e \in G : e[3] = w}
           g2  == G \ rem
           hit == {hs.lab[e[1]] : e \in rem} \ {0}
           effs == {LET C  == Members(hs.lab, k)
                        Ks == CompsOf(g2, C)
                        any(K) == \E e \in g2 : e[1] \in K
                        V  == {K \in Ks : Cardinality(K) >= mp /\ any(K)}
                    IN [k |-> k, noise |-> Ks \ V, valid |-> V, split |-> Cardinality(V) >= 2] : k \in hit}
           born == Born(effs)
           nx  == Len(hs.cl) + 1
       IN /\ G' = g2
          /\ rows' = IF hit # {} /\ Kept(hs, effs, Compact) THEN Append(rows, <<w, hs.lab>>) ELSE rows
          /\ IF hit = {} THEN hs' = hs
             ELSE \E nm \in {f \in [born -> nx..(nx + Cardinality(born) - 1)] : \A a, b \in born : a # b => f[a] # f[b]} :
                  LET al == [i \in P |-> IF \E K \in born : i \in K THEN nm[CHOOSE K \in born : i \in K]
                                         ELSE IF \E e \in effs : \E K \in e.noise : i \in K THEN 0
                                         ELSE hs.lab[i]]
                  IN hs' = AfterCut(hs, effs, al, w, Compact)
    /\ UNCHANGED <<x, mp, D, c, ph, att, best, from, E, pend, ord, sel, prop, val, runs>>
CutDone ==
    /\ ph = "cut" /\ G = {}
    /\ ph' = "prop"
    /\ LET m == Len(hs.cl) IN
       /\ pend' = 1..m
       /\ sel' = [k \in 1..m |-> {}] /\ prop' = [k \in 1..m |-> 0] /\ val' = [k \in 1..m |-> 0]
    /\ UNCHANGED <<x, mp, D, c, att, best, from, E, G, hs, ord, rows, runs>>

R(w) == RecipSq(w)
(* propagate a cluster whose children have been propagated: leaves first, in any order *)
Propagate ==
    /\ ph = "prop" /\ pend # {}
    /\ \E k \in pend :
        /\ Children(hs.cl, k) \cap pend = {}
        /\ \A q \in pend : q <= k \/ Children(hs.cl, q) \cap pend # {}    \* the greatest ready label, as the sorted worklist does
        /\ pend' = pend \ {k}
        /\ IF k = 1 THEN UNCHANGED <<sel, prop, val>>
           ELSE LET own == Stab(hs.cl, k, R)
                    pr  == prop[k]
                    me  == Children(hs.cl, k) = {} \/ own = STINF \/ (pr # STINF /\ own >= pr)
                    q   == hs.cl[k].p
                IN /\ sel'  = [sel EXCEPT ![q] = @ \cup (IF me THEN {k} ELSE sel[k])]
                   /\ prop' = [prop EXCEPT ![q] = AddSt(@, IF me THEN own ELSE pr)]
                   /\ val'  = [val EXCEPT ![k] = IF me THEN own ELSE pr]
    /\ UNCHANGED <<x, mp, D, c, ph, att, best, from, E, G, hs, ord, rows, runs>>
PropDone ==
    /\ ph = "prop" /\ pend = {} /\ ph' = "done"
    /\ ord' = SetToSeq(P)
    /\ UNCHANGED <<x, mp, D, c, att, best, from, E, G, hs, pend, sel, prop, val, rows, runs>>
Rerun ==
    /\ ph = "done" /\ runs < Reruns
    /\ \E m \in MPs : StartRun(D, m)
    /\ runs' = runs + 1 /\ x' = x

Next == Attach \/ PrimDone \/ Cut \/ CutDone \/ Propagate \/ PropDone \/ Rerun
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
InvCore == \A i \in P : IsCore(D, i, mp, c[i])                               \* C02

(* C03: the finished tree connects, at every level, exactly what mutual       *)
(* reachability connects; its weights are mutual reachability distances        *)
InvMst ==
    ph = "cut" /\ hs.row = 0 /\ n >= mp =>
      /\ Cardinality(E) = n - 1
      /\ \A e \in E : e[3] = MRD(D, c, e[1], e[2])
      /\ \A w \in {e[3] : e \in E} \cup {0} : \A i \in P :
           Grow({e \in E : e[3] <= w}, {i}) = Reach(D, c, {i}, w + 1)
(* the path maxima used by the trace specification are the minimax levels *)
InvMinimax ==
    ph = "prim" /\ att = <<n>> /\ n >= mp =>
      LET S == SpanTree(D, c) IN
      \A i, j \in P : i # j =>
         /\ j \in Reach(D, c, {i}, U(S, c, i, j) + 1)
         /\ j \notin Reach(D, c, {i}, U(S, c, i, j))
(* C04: the current clusters are the large components of the density graph below the last cut *)
InvHierarchy ==
    ph \in {"cut", "prop", "done"} =>
      /\ \A i \in P : hs.lab[i] # 0 => (hs.row = 0 \/ n < mp \/ Members(hs.lab, hs.lab[i]) = Reach(D, c, {i}, hs.last))
      /\ \A i \in P : hs.lab[i] = 0 => (n < mp \/ Cardinality(Reach(D, c, {i}, hs.last)) < mp)
(* ... and the steps of the trace specification are the steps of the algorithm *)
InvRows ==
    ph = "cut" /\ G # {} =>
      LET S == SpanTree(D, c)
          w == MaxW(G)
          hit == {hs.lab[e[1]] : e \in {f \in G : f[3] = w}} \ {0}
      IN (hit # {}) = (NextLevel(hs, S, c) = w)
InvEnd == ph \in {"prop", "done"} =>
      /\ \A i \in P : hs.lab[i] = 0
      /\ \A k \in 1..Len(hs.cl) : hs.cl[k].d # -1
(* C05 *)
InvTree ==
    ph = "done" =>
      \A k \in 1..Len(hs.cl) :
        LET q == hs.cl[k] IN
        /\ SeqSum([e \in 1..Len(q.ev) |-> q.ev[e][1]]) = Cardinality(q.mem)
        /\ q.mem = q.vc \cup UNION {hs.cl[ch].mem : ch \in Children(hs.cl, k)}
        /\ q.ch = (Children(hs.cl, k) # {}) /\ Cardinality(Children(hs.cl, k)) # 1
        /\ k > 1 => q.p < k /\ q.b = hs.cl[q.p].d /\ q.b > q.d /\ Cardinality(q.mem) >= mp
        /\ k > 1 => Stab(hs.cl, k, R) >= 0
(* C06: no non-overlapping set of clusters without the root is more stable *)
Antichain(A) == \A a, b \in A : a # b => hs.cl[a].mem \cap hs.cl[b].mem = {}
TotalSt(A) == FoldSet(LAMBDA k, acc : AddSt(acc, Stab(hs.cl, k, R)), 0, A)
InvOptimal ==
    ph = "done" =>
      LET m == Len(hs.cl) IN
      /\ 1 \notin sel[1] /\ Antichain(sel[1])
      /\ (m > 1 => \A A \in SUBSET (2..m) : Antichain(A) => TotalSt(A) <= TotalSt(sel[1]))
      /\ TotalSt(sel[1]) = prop[1]
      (* ties go to the ancestor: no proper ancestor of a chosen cluster is as stable as what is chosen below it *)
      /\ \A k \in 2..m : (sel[1] \cap Descendants(hs.cl, k)) # {} =>
            Stab(hs.cl, k, R) < TotalSt(sel[1] \cap Descendants(hs.cl, k))
      /\ LET ch == Choose(hs.cl, R, TRUE, LAMBDA k : FALSE) IN ch.sel[1] = sel[1] /\ ch.prop[1] = prop[1]
(* C07 *)
InvLabels ==
    ph = "done" =>
      LET l == FlatLabels(hs.cl, sel[1], n) IN
      /\ Rng(l) \ {0} = sel[1]
      /\ \A k \in sel[1] : Cardinality(Members(l, k)) >= mp /\ Members(l, k) = hs.cl[k].mem
(* C08: 1 - lowest death / own level lies in [0,1] *)
InvScores ==
    ph = "done" =>
      \A i \in P : /\ hs.nlc[i] \in 1..Len(hs.cl)
                   /\ LowestDeath(hs.cl, hs.nlc[i]) <= hs.nlv[i]
                   /\ hs.nlv[i] >= c[i] /\ i \in hs.cl[hs.nlc[i]].vc
(* C09: a rerun depends on nothing but the data and the new parameter: the    *)
(* results are those of the declarative definitions whatever ran before       *)
InvFresh == InvCore /\ InvEnd
(* C31: what a hierarchy records is enough: the row after a cluster's offset   *)
(* shows its members at birth, and a compact one leaves out only levels at     *)
(* and before which no cluster is made                                         *)
InvCompact ==
    /\ Len(rows) = hs.row
    /\ \A k \in 2..Len(hs.cl) :
         /\ hs.cl[k].o \in 1..Len(rows) /\ rows[hs.cl[k].o][1] = hs.cl[k].b
         /\ IF hs.cl[k].o < Len(rows) THEN Members(rows[hs.cl[k].o + 1][2], k) = hs.cl[k].mem
            ELSE ph = "cut" /\ Members(hs.lab, k) = hs.cl[k].mem
    /\ Compact => \A r \in DOMAIN rows :
         r = 1 \/ \E k \in 2..Len(hs.cl) : hs.cl[k].o \in {r - 1, r}
    /\ \A r \in DOMAIN rows : r > 1 => rows[r][1] < rows[r-1][1]
TypeOK == ph \in {"prim", "cut", "prop", "done"}
=============================================================================
