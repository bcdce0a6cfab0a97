-------------------------------- MODULE Util --------------------------------
(* The functions everything else rests on: orders and hashes of values, sizes  *)
(* of types, prime numbers and powers of two for the sizes of tables, and the  *)
(* small value objects (outlier scores, constraints).                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Root(n) == IF n < 2500 THEN 50 ELSE IF n < 1000000 THEN 1000 ELSE 46341      \* not below the square root
IsPrime(n) == n > 1 /\ \A i \in 2..Root(n) : i > n \div i \/ n % i # 0
RECURSIVE Low(_), Up(_)
Low(n) == IF IsPrime(n) THEN n ELSE Low(n - 1)
Up(n) == IF IsPrime(n) THEN n ELSE Up(n + 1)
First == 3                                 \* no table has fewer places
PrimeBelow(n) == IF n <= First THEN First ELSE Low(n - 1)
PrimeAbove(n) == IF n < 2 THEN 2 ELSE Up(n + 1)
Greatest == 2147483647                     \* INT_MAX, a prime number
RECURSIVE PowAbove(_, _)
PowAbove(n, p) == IF p > n THEN p ELSE PowAbove(n, 2 * p)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
(* the order of two values of a type, by their places among the values *)
Order(a, b) == Sign(a - b)
Sizes == [i |-> 4, l |-> 8, s |-> 2, c |-> 1, d |-> 8, f |-> 4, t |-> 8, p |-> 8]
(* a hash of a value is a place of the table and depends on nothing but the    *)
(* value: seen maps <<type, value, places>> to the hash it had                 *)
Agrees(seen, t, k, b, r) == r >= 0 /\ r < b /\ (<<t, k, b>> \in DOMAIN seen => seen[<<t, k, b>>] = r)
=============================================================================
