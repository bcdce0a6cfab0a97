------------------------------ MODULE HdbTrace ------------------------------
(* Conformance of recorded runs of the library with HdbBase: a behaviour of   *)
(* this specification consumes the events of one recorded scenario; an event  *)
(* that the specification does not allow leads to a state with bad # "".      *)
EXTENDS HdbBase, Json

CONSTANTS TraceFile,     \* newline separated JSON, one scenario per line
          Chk            \* ids of the properties that are checked

TR == ndJsonDeserialize(TraceFile)

VARIABLES tr, pos, sub, ob, bad
vars == <<tr, pos, sub, ob, bad>>

Ev  == TR[tr].ev[pos]
On(p) == p \in Chk \/ ("C31" \in Chk /\ p \in {"C04", "C05", "C06", "C07", "C08"})   \* the compact run answers for all of its results

Fresh == [st |-> "none"]
Init == /\ tr \in 1..Len(TR)
        /\ pos = 1 /\ sub = 0 /\ bad = ""
        /\ ob = [h \in {} |-> Fresh]

Upd(h, o) == [q \in (DOMAIN ob) \cup {h} |-> IF q = h THEN o ELSE ob[q]]
Adv == pos' = pos + 1 /\ sub' = 0 /\ UNCHANGED <<tr, bad>>
Keep == ob' = ob
Reject(why) == /\ bad' = why /\ UNCHANGED <<tr, pos, sub, ob>>
               /\ PrintT(<<"REJECTED", TR[tr].id, pos, sub, why>>)

Light == Chk \subseteq {"C28"}         \* only success is checked: no need for the truth

Recip(w) == IF TR[tr].mode = "exact" THEN RecipSq(w)
            ELSE IF w = INF THEN 0 ELSE TR[tr].rc[w]

(* ------------------------------------------------------------ truth of a run *)
Truth(D, mp, cp) ==
    LET c == TLCEval(CoreDists(D, mp))
        S == SpanTree(D, c)
    IN TLCEval([st |-> "run", n |-> Len(D), mp |-> mp, D |-> D, c |-> c, S |-> S, hs |-> HInit(Len(D)),
                cp |-> cp, done |-> FALSE, sk |-> <<>>, pk |-> <<>>])

Init_ ==
    IF Ev.rm # Ev.mp THEN Reject("init: minimum points")
    ELSE ob' = Upd(Ev.h, [st |-> "init", mp |-> Ev.mp]) /\ Adv

Run ==
    LET D == IF Light THEN <<>> ELSE IF TR[tr].mode = "exact" THEN DistMatrix(TR[tr].data[Ev.k]) ELSE Ev.D IN
    IF Ev.ret # 1 THEN Reject("C28 run does not succeed")
    ELSE IF Ev.inp # 1 THEN Reject("C28 the caller's data set is modified")
    ELSE IF Light THEN IF Ev.np # TR[tr].ns[Ev.k] THEN Reject("C28 number of points") ELSE Keep /\ Adv
    ELSE ob' = Upd(Ev.h, Truth(D, ob[Ev.h].mp, "compact" \in DOMAIN Ev /\ Ev.compact = 1)) /\ Adv

Rerun ==
    IF Ev.ret # 1 THEN Reject("C28 rerun does not succeed")
    ELSE IF Light THEN Keep /\ Adv
    ELSE ob' = Upd(Ev.h, Truth(ob[Ev.h].D, Ev.mp, FALSE)) /\ Adv

O == ob[Ev.h]

Dist == IF On("C01") /\ ~(Ev.n = O.n /\ Ev.d = O.D) THEN Reject("C01 pairwise distances")
        ELSE Keep /\ Adv

Core == IF On("C02") /\ ~(Len(Ev.c) = O.n /\ Ev.c = O.c /\ \A i \in 1..O.n : IsCore(O.D, i, O.mp, Ev.c[i]))
        THEN Reject("C02 core distances") ELSE Keep /\ Adv

(* edges <<a, b, w>> with 1-based points *)
MstOk(m, o) ==
    LET n == o.n
        selfE == SelectSeq(m, LAMBDA e : e[1] = e[2])
        treeE == SelectSeq(m, LAMBDA e : e[1] # e[2])
        want  == SortSeq([k \in 1..Len(o.S.E) |-> o.S.E[k][3]], LAMBDA a, b : a < b)
        got   == SortSeq([k \in 1..Len(treeE) |-> treeE[k][3]], LAMBDA a, b : a < b)
        (* labels of the components, merged edge by edge *)
        merge(acc, e) == IF acc.ok = FALSE \/ acc.l[e[1]] = acc.l[e[2]] THEN [acc EXCEPT !.ok = FALSE]
                         ELSE TLCEval([ok |-> TRUE, l |-> [i \in 1..n |-> IF acc.l[i] = acc.l[e[1]] THEN acc.l[e[2]] ELSE acc.l[i]]])
    IN /\ \A k \in DOMAIN m : m[k][1] \in 1..n /\ m[k][2] \in 1..n
       /\ Len(selfE) = n /\ {e[1] : e \in Rng(selfE)} = 1..n
       /\ \A k \in DOMAIN selfE : selfE[k][3] = o.c[selfE[k][1]]
       /\ Len(treeE) = n - 1
       /\ \A k \in DOMAIN treeE : treeE[k][3] = MRD(o.D, o.c, treeE[k][1], treeE[k][2])
       /\ FoldLeft(merge, [ok |-> TRUE, l |-> Iota(n)], treeE).ok
       /\ got = want
Mst == IF On("C03") /\ O.n >= O.mp /\ ~(Ev.nv = O.n /\ MstOk(Ev.m, O))
       THEN Reject("C03 minimum spanning tree") ELSE Keep /\ Adv

(* ------------------------------------------------------------- the hierarchy *)
(* row 0 of the recorded hierarchy is the all-noise level, rows 1.. follow     *)
(* (a compact one leaves out levels that nothing depends on)                   *)
RowStep(o, ef, w) ==
    LET R == Ev.r
        L == Len(R) - 1
        k == o.hs.row + 1
        id == IF o.cp THEN "C31" ELSE "C04"
        noise == [i \in 1..o.n |-> 0]
        keep == Kept(o.hs, ef, o.cp)
        al == IF o.cp /\ Born(ef) = {} THEN Shrunk(o.hs, ef)
              ELSE IF k + 1 <= L THEN R[k + 2].l ELSE noise
    IN [al |-> al,
        why |-> IF keep /\ k > L THEN id \o " missing density level"
                ELSE IF keep /\ R[k + 1].w # w THEN id \o " density level"
                ELSE IF keep /\ R[k + 1].l # o.hs.lab THEN id \o " labels of a level"
                ELSE IF ~AfterOk(o.hs, ef, al) THEN id \o " labels after a level"
                ELSE ""]
Rows ==
    LET o  == O
        id == IF o.cp THEN "C31" ELSE "C04"
        w  == NextLevel(o.hs, o.S, o.c)
    IN IF sub = 0 /\ (Len(Ev.r) = 0 \/ Ev.size # Len(Ev.r)) THEN Reject(id \o " number of levels")
       ELSE IF sub = 0 /\ (Ev.r[1].w # 0 \/ Ev.r[1].l # [i \in 1..o.n |-> 0]) THEN Reject(id \o " last level is not all noise")
       ELSE IF w = -1
       THEN IF Len(Ev.r) # o.hs.row + 1
            THEN Reject(id \o " level after all points are noise")
            ELSE /\ ob' = Upd(Ev.h, [o EXCEPT !.done = TRUE]) /\ Adv
       ELSE LET ef == TLCEval(Effects(o.hs, o.S, o.c, w, o.mp))
                st == TLCEval(RowStep(o, ef, w)) IN
            IF st.why # "" THEN Reject(st.why)
            ELSE /\ ob' = Upd(Ev.h, [o EXCEPT !.hs = TLCEval(AfterCut(o.hs, ef, st.al, w, o.cp))])
                 /\ sub' = sub + 1 /\ UNCHANGED <<tr, pos, bad>>

(* ---------------------------------------------------------- the cluster tree *)
KeyGE(a, b) == \/ a[1] > b[1]
               \/ a[1] = b[1] /\ a[2] > b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] >= b[3]
LevelsOf(cl) == UNION {{cl[k].b} \cup {e[2] : e \in Rng(cl[k].ev)} : k \in 1..Len(cl)} \ {NANL}
Exact(cl) == TR[tr].mode = "exact" /\ LevelsOf(cl) \subseteq (Powers4 \cup {0, INF})
Chosen(o) == Choose(o.hs.cl, Recip, Exact(o.hs.cl),
                    LAMBDA k : k <= Len(o.sk) /\ KeyGE(o.sk[k], o.pk[k]))

NodeOk(o, t, k) ==
    LET c == o.hs.cl[k]
        r == t[k + 1]
        s == Stab(o.hs.cl, k, Recip)
    IN /\ r.l = k /\ r.p = c.p /\ r.b = c.b /\ r.d = c.d /\ r.n = 0 /\ r.o = c.o
       /\ r.ch = (IF c.ch THEN 1 ELSE 0)
       /\ Rng(r.vc) = c.vc /\ Len(r.vc) = Cardinality(c.vc)
       /\ IF s \in {STINF, STNAN} THEN r.sf = s ELSE r.sf \notin {STINF, STNAN} /\ Abs(r.sf - s) <= Cardinality(c.mem) + 2
       /\ r.ld = LowestDeath(o.hs.cl, k)
TreeOk(o, t) == /\ Len(t) = Len(o.hs.cl) + 1 /\ t[1].l = 0
                /\ \A k \in 1..Len(o.hs.cl) : NodeOk(o, t, k)
SelOk(o, t) ==
    LET ch == Chosen(o)
        m  == Len(o.hs.cl)
    IN /\ Len(t) = m + 1
       /\ Rng(t[2].de) = ch.sel[1] /\ Len(t[2].de) = Cardinality(ch.sel[1])
       /\ 1 \notin Rng(t[2].de)
       /\ \A k \in 1..m : IF ch.prop[k] = STINF THEN t[k+1].pf = STINF
                          ELSE t[k+1].pf \notin {STINF, STNAN} /\ Abs(t[k+1].pf - ch.prop[k]) <= 2 * o.n + 2
       /\ \A a, b \in ch.sel[1] : a # b => o.hs.cl[a].mem \cap o.hs.cl[b].mem = {}

Tree ==
    LET o  == O
        o2 == [o EXCEPT !.sk = [k \in 1..(Len(Ev.t)-1) |-> Ev.t[k+1].sk],
                        !.pk = [k \in 1..(Len(Ev.t)-1) |-> Ev.t[k+1].pk]]
    IN IF On("C05") /\ ~TreeOk(o, Ev.t) THEN Reject("C05 cluster tree")
       ELSE IF On("C06") /\ ~SelOk(o2, Ev.t) THEN Reject("C06 selected clusters")
       ELSE ob' = Upd(Ev.h, o2) /\ Adv

Labels ==
    LET o  == O
        ch == Chosen(o)
        want == FlatLabels(o.hs.cl, ch.sel[1], o.n)
    IN IF On("C07") /\ ~( /\ Ev.l = want
                          /\ \A k \in Rng(Ev.l) \ {0} : Cardinality(Members(Ev.l, k)) >= o.mp)
       THEN Reject("C07 flat labels")
       ELSE IF On("C06") /\ Rng(Ev.l) \ {0} # ch.sel[1] THEN Reject("C06 clusters of the flat labels")
       ELSE Keep /\ Adv

(* ---------------------------------------------------------- outlier scores *)
ScoreOk(o, s) ==         \* s = <<id, core, SCALE * (1 - score), key>>
    LET i  == s[1]
        e  == o.hs.nlv[i]
        em == LowestDeath(o.hs.cl, o.hs.nlc[i])
        re == Recip(e)
        rm == Recip(em)
    IN /\ i \in 1..o.n /\ s[2] = o.c[i]
       /\ s[3] >= 0 /\ s[3] <= SCALE
       /\ IF e = 0 \/ em = e THEN s[3] = SCALE
          ELSE IF em = 0 THEN s[3] = 0
          ELSE Abs(s[3] * rm - SCALE * re) <= rm + s[3] + SCALE
ScoreLE(a, b) ==         \* strictly before in (score, core distance, id)
    IF a[4] # b[4] THEN KeyGE(b[4], a[4])
    ELSE IF a[2] # b[2] THEN a[2] < b[2] ELSE a[1] < b[1]
Scores ==
    LET o == O IN
    IF On("C08") /\ ~( /\ Len(Ev.s) = o.n
                       /\ {Ev.s[k][1] : k \in DOMAIN Ev.s} = 1..o.n
                       /\ \A k \in DOMAIN Ev.s : ScoreOk(o, Ev.s[k])
                       /\ \A k \in 1..(Len(Ev.s)-1) : ScoreLE(Ev.s[k], Ev.s[k+1]))
    THEN Reject("C08 outlier scores") ELSE Keep /\ Adv

Inf ==
    IF On("C05") /\ (Ev.r = 1) # (\E k \in 1..Len(O.hs.cl) : Stab(O.hs.cl, k, Recip) = STINF)
    THEN Reject("C05 report of infinite stability") ELSE Keep /\ Adv

(* the results a successful run leaves: distances, core distances, tree, hierarchy, clusters, labels, scores *)
Held == IF On("C28") /\ (Ev.f[1] = 0 \/ Ev.f[2] = 0 \/ Ev.f[3] = 0 \/ Ev.f[4] = 0 \/ Ev.f[5] = 0 \/ Ev.f[7] = 0 \/ Ev.f[8] = 0)
        THEN Reject("C28 a result of a successful run is missing") ELSE Keep /\ Adv

(* the order of two scores on its own: 1 after, -1 before, 0 the same point *)
Order(a, b) == IF a[1] # b[1] THEN (IF KeyGE(a[1], b[1]) THEN 1 ELSE -1)
               ELSE IF a[2] # b[2] THEN (IF KeyGE(a[2], b[2]) THEN 1 ELSE -1)
               ELSE IF a[3] > b[3] THEN 1 ELSE IF a[3] < b[3] THEN -1 ELSE 0
OsCmp == IF On("C08") /\ (Ev.r # Order(Ev.a, Ev.b) \/ Ev.rr # Order(Ev.b, Ev.a)) THEN Reject("C08 comparison of two scores") ELSE Keep /\ Adv

Other == Keep /\ Adv

Next ==
    /\ bad = ""
    /\ IF pos <= Len(TR[tr].ev)
       THEN CASE Ev.e = "init"   -> Init_
              [] Ev.e = "run"    -> Run
              [] Ev.e = "rerun"  -> Rerun
              [] Ev.e = "dist"   -> Dist
              [] Ev.e = "core"   -> Core
              [] Ev.e = "mst"    -> Mst
              [] Ev.e = "rows"   -> Rows
              [] Ev.e = "tree"   -> Tree
              [] Ev.e = "labels" -> Labels
              [] Ev.e = "scores" -> Scores
              [] Ev.e = "inf"    -> Inf
              [] Ev.e = "oscmp"  -> OsCmp
              [] Ev.e = "held"   -> Held
              [] Ev.e = "crash"  -> Reject("the program crashed")
              [] OTHER -> Other
       ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
