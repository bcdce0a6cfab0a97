------------------------------- MODULE AnBase -------------------------------
(* What the analyses of a clustering are supposed to compute: the groups of a *)
(* labelling, the distance extremes of a group, the statistics of the ratios, *)
(* the validity grade and the sorted lists of clusters.                       *)
EXTENDS HdbBase
DMINL == -5              \* the level of the smallest positive value of the distance type

(* ------------------------------------------------------------------ groups *)
(* l[i+1] is the label of position i; positions b <= i < e                    *)
Positions(l, b, e, k) == SelectSeq([q \in 1..(e-b) |-> b + q - 1], LAMBDA i : l[i+1] = k)
GroupKeys(l, b, e) == {l[i+1] : i \in b..(e-1)}

(* --------------------------------------------------------------- extremes *)
(* least positive of a set of levels, 0 if there is none                      *)
LeastPos(S) == IF S \ {0} = {} THEN 0 ELSE Min(S \ {0})
PairLevels(D, ps) == {D[ps[a]+1][ps[b]+1] : <<a, b>> \in {q \in (DOMAIN ps) \X (DOMAIN ps) : q[1] < q[2]}}
Extremes(D, c, ps) ==      \* <<min core, max core, min distance, max distance>>
    LET C == {c[p+1] : p \in Rng(ps)}
        P == PairLevels(D, ps) \ {0}
    IN <<LeastPos(C), Max(C), IF P = {} THEN INF ELSE Min(P), IF P = {} THEN DMINL ELSE Max(P)>>

(* --------------------------------------------------------------- statistics *)
(* the ratio of two values with squared levels a and b; -1 if it is no integer *)
Ratio(a, b) ==
    IF a = INF /\ b = DMINL THEN 0
    ELSE IF a = b /\ a > 0 THEN 1
    ELSE IF a <= 0 \/ b < 0 \/ a = INF \/ b = INF THEN -1
    ELSE IF b % a # 0 THEN -1
    ELSE LET q == b \div a
             r == ISqrt(q)
         IN IF r * r = q THEN r ELSE -1
PowSum(d, k) == SeqSum([i \in DOMAIN d |-> IF k = 1 THEN d[i] ELSE IF k = 2 THEN d[i]*d[i] ELSE IF k = 3 THEN d[i]*d[i]*d[i] ELSE d[i]*d[i]*d[i]*d[i]])
(* the deviations from the mean if that is an integer, otherwise n times those *)
Deviations(rs) == LET S == SeqSum(rs)
                      n == Len(rs)
                  IN [i \in DOMAIN rs |-> IF S % n = 0 THEN rs[i] - (S \div n) ELSE n * rs[i] - S]
Decidable(rs) == \* the fourth powers fit the integers of the checker
    /\ \A i \in DOMAIN rs : rs[i] >= 0
    /\ LET n == Len(rs)
       IN \/ n <= 10 /\ \A i \in DOMAIN rs : n * rs[i] <= 120
          \/ /\ n <= 600 /\ \A i \in DOMAIN rs : rs[i] <= 30
             /\ SeqSum(rs) % n = 0

(* the grade of one measure by the signs of skewness and kurtosis (2: undefined) *)
Grade(s, k) == IF s = 1 /\ k = 1 THEN 2 ELSE IF s = -1 /\ k = 1 THEN 1 ELSE IF s = 1 /\ k = -1 THEN 0 ELSE -1

(* ------------------------------------------------------------------ sorting *)
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in Rng(a) \cup Rng(b) : Len(SelectSeq(a, LAMBDA y : y = x)) = Len(SelectSeq(b, LAMBDA y : y = x))
Ascending(s) == \A i \in 1..(Len(s)-1) : s[i] <= s[i+1]
=============================================================================
