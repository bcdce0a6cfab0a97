------------------------------- MODULE Relate -------------------------------
(* Two recorded clusterings of the same points given differently: in another  *)
(* order, moved rigidly, scaled (the recording of b is divided by the scale). *)
(* Point i of a is point p[i] of b. They must be the same clustering up to    *)
(* the names of points and clusters.                                          *)
EXTENDS HdbBase, Json
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, bad
vars == <<tr, pos, bad>>
X == TR[tr].a
Y == TR[tr].b
p == TR[tr].p
n == Len(p)
Pts == 1..n
Init == tr \in 1..Len(TR) /\ pos = 1 /\ bad = ""
Reject(why) == bad' = why /\ UNCHANGED <<tr, pos>> /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, why>>)
Adv == pos' = pos + 1 /\ UNCHANGED <<tr, bad>>

SameDist == \A i, j \in Pts : X.d[i][j] = Y.d[p[i]][p[j]]
SameCore == \A i \in Pts : X.c[i] = Y.c[p[i]]
(* the clusters of a labelling as sets of points of a *)
Classes(l, q) == {{i \in Pts : l[q[i]] = k} : k \in Rng(l) \ {0}}
SamePart(l, m) == Classes(l, Iota(n)) = Classes(m, p)
SameRows == /\ Len(X.r) = Len(Y.r)
            /\ \A k \in 1..Len(X.r) : X.r[k].w = Y.r[k].w /\ SamePart(X.r[k].l, Y.r[k].l)
(* a cluster of the tree: the points that carry its label first *)
First(Z, q, k) == LET R == {i \in 2..Len(Z.r) : k \in Rng(Z.r[i].l)} IN
                  IF R = {} THEN {} ELSE LET i == Min(R) IN {j \in Pts : Z.r[i].l[q[j]] = k}
Node(Z, q, k) == LET t == Z.t[k + 1]
                     f(v) == IF v = 0 THEN {} ELSE First(Z, q, v) IN
    [mem |-> f(k), at |-> IF k = 1 THEN -1 ELSE t.b, par |-> f(t.p), death |-> t.d, low |-> t.ld, ch |-> t.ch, off |-> t.o,
     vc |-> {i \in Pts : q[i] \in Rng(t.vc)}]
Nodes(Z, q) == {Node(Z, q, k) : k \in 1..(Len(Z.t) - 1)}
StabOf(Z, q) == [k \in 1..(Len(Z.t) - 1) |-> <<First(Z, q, k), IF k = 1 THEN 0 ELSE Z.t[k + 1].b, Z.t[k + 1].sf>>]
SameStab == LET A == Rng(StabOf(X, Iota(n)))
                B == Rng(StabOf(Y, p))
                close(u, v) == u[1] = v[1] /\ u[2] = v[2] /\ (u[3] = v[3] \/ (Abs(u[3]) < STINF /\ Abs(v[3]) < STINF /\ Abs(u[3] - v[3]) <= 2))
            IN (\A u \in A : \E v \in B : close(u, v)) /\ (\A v \in B : \E u \in A : close(u, v))
SameTree == Len(X.t) = Len(Y.t) /\ Nodes(X, Iota(n)) = Nodes(Y, p) /\ SameStab
SameFlat == TR[tr].tie = 1 \/ SamePart(X.l, Y.l)
ScoreOf(Z, i) == LET k == CHOOSE k \in Pts : Z.s[k][1] = i IN <<Z.s[k][2], Z.s[k][4]>>
SameScores == /\ {X.s[k][1] : k \in Pts} = Pts /\ {Y.s[k][1] : k \in Pts} = Pts
              /\ \A i \in Pts : ScoreOf(X, i) = ScoreOf(Y, p[i])
              /\ [k \in Pts |-> X.s[k][4]] = [k \in Pts |-> Y.s[k][4]]        \* the ascending list of scores itself
Next == /\ bad = ""
        /\ IF TR[tr].crash = 1 THEN Reject("C13 one of the runs does not finish")
           ELSE CASE pos = 1 -> IF SameDist THEN Adv ELSE Reject("C13 distances")
                  [] pos = 2 -> IF SameCore THEN Adv ELSE Reject("C13 core distances")
                  [] pos = 3 -> IF SameRows THEN Adv ELSE Reject("C13 hierarchy")
                  [] pos = 4 -> IF SameTree THEN Adv ELSE Reject("C13 cluster tree")
                  [] pos = 5 -> IF SameFlat THEN Adv ELSE Reject("C13 flat clusters")
                  [] pos = 6 -> IF SameScores THEN Adv ELSE Reject("C13 outlier scores")
                  [] OTHER -> UNCHANGED vars
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
