--------------------------------- MODULE Line ---------------------------------
(* Points on a line in numbers for which the matrix of distances cannot be    *)
(* written down: point i (from 0) of n lies at i*m mod n, where m and n have  *)
(* no common factor, so that every place 0..n-1 holds one point.              *)
EXTENDS Integers, FiniteSets
Fits(n, m) == n * m < 2000000000
At(n, m, i) == (i * m) % n
Gap(n, m, i, j) == LET d == At(n, m, i) - At(n, m, j) IN IF d < 0 THEN -d ELSE d
(* distance to the k-th nearest other point: both sides of a place are taken  *)
(* in turn until one side ends                                                *)
KthOn(n, x, k) ==
    LET side == IF x < n - 1 - x THEN x ELSE n - 1 - x         \* points on the shorter side
    IN IF k <= 2 * side THEN (k + 1) \div 2 ELSE k - side
(* -1: no such neighbour *)
CoreAt(n, m, mp, i) == IF n < mp THEN -1 ELSE KthOn(n, At(n, m, i), mp - 1)
===============================================================================
