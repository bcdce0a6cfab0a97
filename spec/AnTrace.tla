------------------------------ MODULE AnTrace ------------------------------
(* Conformance of recorded analyses with AnBase. The clustering itself is     *)
(* taken from the recording; only distances and core distances are computed.  *)
EXTENDS AnBase, Json
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, ob, la, cm, dm, sg, bad
vars == <<tr, pos, ob, la, cm, dm, sg, bad>>
Ev == TR[tr].ev[pos]
On(p) == p \in Chk
Nil == [q \in {} |-> 0]
Init == tr \in 1..Len(TR) /\ pos = 1 /\ bad = "" /\ ob = Nil /\ la = Nil /\ cm = Nil /\ dm = Nil /\ sg = Nil
Put(f, k, x) == [q \in (DOMAIN f) \cup {k} |-> IF q = k THEN x ELSE f[q]]
Adv == pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Reject(why) == /\ bad' = why /\ UNCHANGED <<tr, pos, ob, la, cm, dm, sg>>
               /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, why>>)
Skip == UNCHANGED <<ob, la, cm, dm, sg>> /\ Adv

Mps(D, mp) == TLCEval([mp |-> mp, D |-> D, c |-> CoreDists(D, mp)])
DoInit == ob' = Put(ob, Ev.h, [mp |-> Ev.mp]) /\ UNCHANGED <<la, cm, dm, sg>> /\ Adv
DoRun == ob' = Put(ob, Ev.h, Mps(IF TR[tr].mode = "exact" THEN DistMatrix(TR[tr].data[Ev.k]) ELSE Ev.D, ob[Ev.h].mp)) /\ UNCHANGED <<la, cm, dm, sg>> /\ Adv
DoRerun == ob' = Put(ob, Ev.h, Mps(ob[Ev.h].D, Ev.mp)) /\ UNCHANGED <<la, cm, dm, sg>> /\ Adv
DoLabels == la' = Put(la, <<0, Ev.h>>, Ev.l) /\ UNCHANGED <<ob, cm, dm, sg>> /\ Adv
DoLabs   == la' = Put(la, <<1, Ev.ls>>, Ev.l) /\ UNCHANGED <<ob, cm, dm, sg>> /\ Adv

(* m = <<key, positions>> ... *)
KeysOf(m) == [i \in DOMAIN m |-> m[i][1]]
Find(m, k) == m[CHOOSE i \in DOMAIN m : m[i][1] = k]
CMap ==
    LET l == la[IF Ev.ls >= 0 THEN <<1, Ev.ls>> ELSE <<0, Ev.h>>]
        ks == GroupKeys(l, Ev.b, Ev.en)
    IN IF On("C19") /\ ~( /\ Rng(KeysOf(Ev.m)) = ks /\ Len(Ev.m) = Cardinality(ks)
                          /\ Ev.size = Cardinality(ks) /\ Ev.tsize = Ev.size
                          /\ \A i \in DOMAIN Ev.m : Ev.m[i][2] = Positions(l, Ev.b, Ev.en, Ev.m[i][1]))
       THEN Reject("C19 groups of the labels")
       ELSE cm' = Put(cm, Ev.c, Ev.m) /\ UNCHANGED <<ob, la, dm, sg>> /\ Adv
MinMax ==
    LET o == ob[Ev.h]
        g == cm[Ev.cm]
    IN IF On("C20") /\ ~( /\ Rng(KeysOf(Ev.m)) = Rng(KeysOf(g)) /\ Len(Ev.m) = Len(g) /\ Ev.size = Len(g)
                          /\ \A i \in DOMAIN Ev.m : <<Ev.m[i][2], Ev.m[i][3], Ev.m[i][4], Ev.m[i][5]>> = Extremes(o.D, o.c, Find(g, Ev.m[i][1])[2]))
       THEN Reject("C20 extremes of a group")
       ELSE dm' = Put(dm, Ev.c, Ev.m) /\ UNCHANGED <<ob, la, cm, sg>> /\ Adv
MkDm == dm' = Put(dm, Ev.c, Ev.m) /\ UNCHANGED <<ob, la, cm, sg>> /\ Adv

(* v = [max, S, V2, sd2 relation, V3, V4]: scaled by the recorder, see lib/suite_an.py *)
Moments(rs, v, n) ==
    LET d == Deviations(rs)
        V == PowSum(d, 2)
    IN /\ v.max = Max(Rng(rs)) /\ v.s1 = SeqSum(rs)
       /\ IF n = 1 THEN v.s2 = NANL /\ v.sd = NANL /\ v.s3 = NANL /\ v.s4 = NANL
          ELSE /\ v.s2 = V /\ v.sd = 1
               /\ IF V = 0 THEN v.s3 = NANL /\ v.s4 = NANL ELSE v.s3 = PowSum(d, 3) /\ v.s4 = PowSum(d, 4)
Ratios(m, a, b) == [i \in DOMAIN m |-> IF TR[tr].mode = "exact" THEN Ratio(m[i][a], m[i][b]) ELSE -1]
Stats ==
    LET m  == dm[Ev.dm]
        cr == Ratios(m, 2, 3)
        dr == Ratios(m, 4, 5)
    IN IF On("C21") /\ Ev.count # Len(m) THEN Reject("C21 number of clusters")
       ELSE IF On("C21") /\ Len(m) > 0 /\ Decidable(cr) /\ ~Moments(cr, Ev.cr, Len(m)) THEN Reject("C21 statistics of the core distances")
       ELSE IF On("C21") /\ Len(m) > 0 /\ Decidable(dr) /\ ~Moments(dr, Ev.dr, Len(m)) THEN Reject("C21 statistics of the distances")
       ELSE sg' = Put(sg, Ev.s, Ev.sg) /\ UNCHANGED <<ob, la, cm, dm>> /\ Adv
ConfOk(m, old) ==
    LET cr == Ratios(old, 2, 3)
        dr == Ratios(old, 4, 5)
        ok(rs, f) == (\A i \in DOMAIN rs : rs[i] >= 0) /\ Max(Rng(rs)) > 0 => \A i \in DOMAIN m : m[i][f] = Max(Rng(rs)) - rs[i]
    IN /\ Len(m) = Len(old)
       /\ \A i \in DOMAIN m : \A f \in 1..5 : m[i][f] = old[i][f]
       /\ m # <<>> => ok(cr, 6) /\ ok(dr, 7)
Conf == IF On("C20") /\ ~ConfOk(Ev.m, dm[Ev.c]) THEN Reject("C20 confidences")
        ELSE dm' = Put(dm, Ev.c, Ev.m) /\ UNCHANGED <<ob, la, cm, sg>> /\ Adv
Analyse == IF On("C21") /\ Ev.v # Grade(sg[Ev.s][1], sg[Ev.s][2]) + Grade(sg[Ev.s][3], sg[Ev.s][4]) THEN Reject("C21 validity grade") ELSE Skip
Validity == IF On("C21") /\ Ev.v # Grade(Ev.g[1], Ev.g[2]) + Grade(Ev.g[3], Ev.g[4]) THEN Reject("C21 validity grade") ELSE Skip

Sort ==
    LET m    == IF Ev.what = "len" THEN cm[Ev.m] ELSE dm[Ev.m]
        from == IF Ev.in = <<>> THEN KeysOf(m) ELSE Ev.in
        val(k) == IF Ev.what = "len" THEN Len(Find(m, k)[2]) ELSE Find(m, k)[IF Ev.what = "sim0" THEN 8 ELSE 9]
        vs   == [i \in DOMAIN Ev.out |-> val(Ev.out[i])]
    IN IF On("C22") /\ ~( /\ Ev.same = 1 /\ SameBag(from, Ev.out)
                          /\ (NANL \in {val(k) : k \in Rng(from)} \/ Ascending(vs)))
       THEN Reject("C22 " \o Ev.what) ELSE Skip
QSort ==
    IF On("C22") /\ ~( /\ SameBag(Ev.in, Ev.out) /\ Ascending([i \in DOMAIN Ev.out |-> Ev.out[i][2]]))
    THEN Reject("C22 quicksort") ELSE Skip

Next ==
    /\ bad = ""
    /\ IF pos <= Len(TR[tr].ev)
       THEN CASE Ev.e = "init" -> DoInit
              [] Ev.e = "run" -> DoRun
              [] Ev.e = "rerun" -> DoRerun
              [] Ev.e = "labels" -> DoLabels
              [] Ev.e = "labs" -> DoLabs
              [] Ev.e = "cmap" -> CMap
              [] Ev.e = "minmax" -> MinMax
              [] Ev.e = "mkdm" -> MkDm
              [] Ev.e = "stats" -> Stats
              [] Ev.e = "conf" -> Conf
              [] Ev.e = "analyse" -> Analyse
              [] Ev.e = "validity" -> Validity
              [] Ev.e = "sort" -> Sort
              [] Ev.e = "qsort" -> QSort
              [] Ev.e = "crash" -> Reject("the program crashed")
              [] OTHER -> Skip
       ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
