------------------------------ MODULE RelModel ------------------------------
(* The definitions themselves do not depend on the order of the points, rigid *)
(* motions and uniform scaling: for all small data sets, a permutation, a     *)
(* translation, a reflection and a scale, the whole clustering by HdbBase is  *)
(* the same up to names. The labels of new clusters are given in the order    *)
(* in which the points are listed, so they differ between the two.            *)
EXTENDS HdbBase
CONSTANTS Ns, Coords, MPs, Shifts, Factors
VARIABLES x, mp, per, shift, mir, f, st, r1, r2
vars == <<x, mp, per, shift, mir, f, st, r1, r2>>
Sorted(s) == \A i \in 1..(Len(s)-1) : s[i] <= s[i+1]
Init == /\ \E k \in Ns : /\ x \in {s \in [1..k -> Coords] : Sorted(s)}
                         /\ per \in {q \in [1..k -> 1..k] : Rng(q) = 1..k}
        /\ mp \in MPs /\ shift \in Shifts /\ mir \in {1, -1} /\ f \in Factors
        /\ st = "given" /\ r1 = <<>> /\ r2 = <<>>
n == Len(x)
Inv(q) == [j \in 1..Len(q) |-> CHOOSE i \in 1..Len(q) : q[i] = j]
Other == [j \in 1..n |-> mir * f * x[Inv(per)[j]] + shift]
Mat(y) == [i \in 1..Len(y) |-> [j \in 1..Len(y) |-> (y[i]-y[j])*(y[i]-y[j])]]
(* labels in the order of the points *)
Label(hs, ef) ==
    LET born == Born(ef)
        nxt == Len(hs.cl) + 1
        lowest(K) == Min(K)
        num(K) == nxt + Cardinality({J \in born : lowest(J) < lowest(K)})
        noise == UNION {UNION e.noise : e \in ef}
    IN [i \in 1..Len(hs.lab) |-> IF i \in noise THEN 0
        ELSE IF \E K \in born : i \in K THEN num(CHOOSE K \in born : i \in K) ELSE hs.lab[i]]
RECURSIVE Cut(_, _, _, _, _)
Cut(hs, S, c, m, rows) ==
    LET w == NextLevel(hs, S, c) IN
    IF w = -1 THEN [hs |-> hs, rows |-> rows]
    ELSE LET ef == TLCEval(Effects(hs, S, c, w, m))
             al == Label(hs, ef)
         IN Cut(TLCEval(AfterCut(hs, ef, al, w, FALSE)), S, c, m, Append(rows, [w |-> w, l |-> hs.lab]))
Whole(y, m) ==
    LET D == TLCEval(Mat(y))
        c == TLCEval(CoreDists(D, m))
        S == TLCEval(SpanTree(D, c))
        H == TLCEval(Cut(HInit(Len(y)), S, c, m, <<>>))
        ch == Choose(H.hs.cl, RecipSq, TRUE, LAMBDA k : TRUE)
    IN TLCEval([c |-> c, rows |-> H.rows, cl |-> H.hs.cl, flat |-> FlatLabels(H.hs.cl, ch.sel[1], Len(y)),
                nlv |-> H.hs.nlv, em |-> [i \in 1..Len(y) |-> LowestDeath(H.hs.cl, H.hs.nlc[i])]])
Compute == st = "given" /\ st' = "done" /\ r1' = Whole(x, mp) /\ r2' = Whole(Other, mp) /\ UNCHANGED <<x, mp, per, shift, mir, f>>
Next == Compute
Spec == Init /\ [][Next]_vars
Sq(w) == IF w = INF THEN INF ELSE f * f * w
Part(l, q) == {{i \in 1..n : l[q[i]] = k} : k \in Rng(l) \ {0}}
Id == Iota(n)
NearTie == \E k \in 2..Len(r1.cl) : r1.cl[k].ch          \* fixed point can not order stabilities at other scales
Same == st = "done" =>
    /\ \A i \in 1..n : r2.c[per[i]] = Sq(r1.c[i]) /\ r2.nlv[per[i]] = Sq(r1.nlv[i]) /\ r2.em[per[i]] = Sq(r1.em[i])
    /\ Len(r1.rows) = Len(r2.rows)
    /\ \A k \in 1..Len(r1.rows) : r2.rows[k].w = Sq(r1.rows[k].w) /\ Part(r1.rows[k].l, Id) = Part(r2.rows[k].l, per)
    /\ Len(r1.cl) = Len(r2.cl)
    /\ (f = 1 \/ ~NearTie) => Part(r1.flat, Id) = Part(r2.flat, per)
=============================================================================
