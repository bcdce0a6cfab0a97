------------------------------- MODULE LineModel -------------------------------
(* The formulas of Line agree with the definitions of HdbBase for every small *)
(* number of points, step and minimum; and the place of a pair in the         *)
(* triangular storage that the code uses is a bijection, which a machine word *)
(* of W bits keeps only while n * n < 2^W.                                    *)
EXTENDS HdbBase, Line
CONSTANTS MaxN, W
VARIABLES n, m, mp, phase
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Init == n \in 1..MaxN /\ m \in {k \in 1..MaxN : Gcd(k, n) = 1} /\ mp \in 2..(MaxN + 1) /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<n, m, mp>>
Spec == Init /\ [][Next]_<<n, m, mp, phase>>
Pts == [i \in 1..n |-> <<At(n, m, i - 1)>>]
D == DistMatrix(Pts)
DistOk == \A i, j \in 1..n : D[i][j] = Gap(n, m, i - 1, j - 1) * Gap(n, m, i - 1, j - 1)
CoreOk == \A i \in 1..n : LET c == CoreAt(n, m, mp, i - 1) IN CoreOf(D, i, mp) = (IF c = -1 THEN INF ELSE c * c)
Place(i, j) == n * i + j - ((i + 1) * (i + 2)) \div 2
Pairs == {p \in (0..(n - 1)) \X (0..(n - 1)) : p[1] < p[2]}
PlaceOk == {Place(p[1], p[2]) : p \in Pairs} = 0..((n * (n - 1)) \div 2 - 1)
WordPlace(i, j) == (((n * i + j) % 2^W) - (((((i + 1) * (i + 2)) % 2^W) \div 2))) 
WordOk == n * n < 2^W => \A p \in Pairs : WordPlace(p[1], p[2]) = Place(p[1], p[2])
===============================================================================
