--------------------------------- MODULE Clu ---------------------------------
(* Clusters and the operations on them. c: slot -> cluster. Stabilities in     *)
(* units of 1/SCALE; a level is the exponent of a power of two, ZERO for 0 and *)
(* INF for the largest value.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SCALE == 32768
INF == 2147483647
ZERO == -1000
Rng(s) == {s[i] : i \in DOMAIN s}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Recip(l) == 2^(15 - l)                                 \* SCALE / 2^l
New(l, p, b, n) == [l |-> l, p |-> p, b |-> b, d |-> ZERO, n |-> n, s |-> 0, ps |-> 0, ld |-> INF, nc |-> 0, pc |-> 0, ch |-> 0, hv |-> 1, vc |-> {}, de |-> {}]
With(c, k, x) == [q \in DOMAIN c \cup {k} |-> IF q = k THEN x ELSE c[q]]
(* a cluster is asked to hand what is best of it to its parent *)
Itself(x) == x.ch = 0 \/ x.nc > x.pc \/ (x.nc = x.pc /\ x.s >= x.ps)
Propagate(c, k) ==
    LET x == [c[k] EXCEPT !.ld = IF @ = INF THEN c[k].d ELSE @]
        c1 == With(c, k, x)
    IN IF x.p < 0 THEN c1
       ELSE LET y == c1[x.p] IN
            With(c1, x.p, [y EXCEPT !.ld = Min({@, x.ld}),
                                    !.pc = @ + (IF Itself(x) THEN x.nc ELSE x.pc),
                                    !.ps = @ + (IF Itself(x) THEN x.s ELSE x.ps),
                                    !.de = @ \cup (IF Itself(x) THEN {x.l} ELSE x.de)])
(* <<clusters, return value>>; a return value that says nothing is 0 *)
Do(c, k, o) ==
    CASE o.op = "init" -> LET c1 == With(c, k, New(o.l, o.a, o.lv, o.m)) IN <<IF o.a >= 0 THEN [c1 EXCEPT ![o.a].ch = 1] ELSE c1, 0>>
      [] o.op = "detach" -> LET x == c[k] IN
                            IF o.m > x.n THEN <<c, 0>>
                            ELSE <<With(c, k, [x EXCEPT !.n = @ - o.m, !.s = @ + o.m * (Recip(o.lv) - Recip(x.b)), !.d = IF x.n = o.m THEN o.lv ELSE @]), 1>>
      [] o.op = "propagate" -> <<Propagate(c, k), 0>>
      [] o.op = "addvc" -> <<[c EXCEPT ![k].vc = @ \cup Rng(o.pts)], 1>>
      [] o.op = "hasvc" -> <<c, IF o.m \in c[k].vc THEN 1 ELSE 0>>
      [] o.op = "addvcc" -> <<[c EXCEPT ![k].pc = @ + o.m], 0>>
      [] o.op = "addc" -> <<[c EXCEPT ![k].nc = @ + o.m], 0>>
      [] o.op = "release" -> <<[c EXCEPT ![k].hv = 0, ![k].vc = {}], 0>>
      [] o.op = "cmp" -> <<c, IF o.m < 0 THEN 1 ELSE IF c[k].l > c[o.m].l THEN 1 ELSE IF c[k].l = c[o.m].l THEN 0 ELSE -1>>
      [] o.op = "destroy" -> <<[q \in DOMAIN c \ {k} |-> IF c[q].p = k THEN [c[q] EXCEPT !.p = -1] ELSE c[q]], 0>>
Defined(c, k, o) == CASE o.op = "init" -> k \notin DOMAIN c /\ (o.a < 0 \/ o.a \in DOMAIN c)
                      [] o.op = "detach" -> k \in DOMAIN c /\ (o.m > 0 \/ c[k].n > 0)
                      [] o.op \in {"addvc", "hasvc"} -> k \in DOMAIN c /\ c[k].hv = 1
                      [] o.op = "cmp" -> k \in DOMAIN c /\ (o.m < 0 \/ o.m \in DOMAIN c)
                      [] OTHER -> k \in DOMAIN c
=============================================================================
