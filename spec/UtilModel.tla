------------------------------ MODULE UtilModel ------------------------------
(* How the library finds the size of a table: a search by halves in a table of *)
(* prime numbers and, beyond its end, trial of one number after the other.     *)
(* And trial division itself. Both end and agree with Util for every argument. *)
EXTENDS Util
CONSTANTS Count,     \* primes in the table (from 3)
          Max        \* arguments up to this
RECURSIVE Table(_, _)
Table(n, from) == IF n = 0 THEN <<>> ELSE <<Up(from)>> \o Table(n - 1, Up(from) + 1)
T == Table(Count, 3)
VARIABLES x, l, r, k, d, st, res
vars == <<x, l, r, k, d, st, res>>
Init == x \in -2..Max /\ l = 1 /\ r = Len(T) /\ k = 0 /\ d = 0 /\ res = 0
        /\ st = IF x > T[Len(T)] THEN "count" ELSE IF x <= T[1] THEN "first" ELSE "search"
Done(v) == res' = v /\ st' = "done" /\ UNCHANGED <<x, l, r, k, d>>
Mid == l + (r - l) \div 2
Search == /\ st = "search"
          /\ IF r < l THEN Done(0)
             ELSE IF Mid > 1 /\ T[Mid] >= x /\ T[Mid - 1] < x THEN Done(T[Mid - 1])
             ELSE IF T[Mid] > x /\ Mid > 1 /\ T[Mid - 1] > x THEN r' = Mid - 1 /\ UNCHANGED <<x, l, k, d, st, res>>
             ELSE IF Mid > 1 /\ T[Mid - 1] = x THEN r' = Mid - 1 /\ UNCHANGED <<x, l, k, d, st, res>>
             ELSE l' = Mid + 1 /\ UNCHANGED <<x, r, k, d, st, res>>
Start == st = "first" /\ Done(T[1])
Count1 == st = "count" /\ k' = (IF k = 0 THEN x ELSE k) - 1 /\ d' = 2 /\ st' = "divide" /\ UNCHANGED <<x, l, r, res>>
Divide == /\ st = "divide"
          /\ IF d > k \div d THEN Done(k)
             ELSE IF k % d = 0 THEN st' = "count" /\ UNCHANGED <<x, l, r, k, d, res>>
             ELSE d' = d + 1 /\ UNCHANGED <<x, l, r, k, st, res>>
Next == Search \/ Start \/ Count1 \/ Divide \/ (st = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == st = "done" => res = PrimeBelow(x) /\ IsPrime(res)
Within == st = "search" => l >= 1 /\ r <= Len(T) /\ \E i \in l..r : i > 1 /\ T[i] >= x /\ T[i - 1] < x
Ends == <>(st = "done")
=============================================================================
