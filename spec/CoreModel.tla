------------------------------ MODULE CoreModel ------------------------------
(* How core distances are found: the nn + 1 smallest distances of a row are    *)
(* kept sorted in a buffer, each distance is placed by a binary search that    *)
(* stops at an equal one, and the greatest falls off. Checked for every row of *)
(* distances within the constants, ties included.                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, Levels, NNs
INF == 1000
VARIABLES row, nn, buf, j, low, high, ph
vars == <<row, nn, buf, j, low, high, ph>>
Init == /\ \E n \in 1..MaxN : row \in [1..n -> Levels]
        /\ nn \in NNs /\ nn < Len(row)
        /\ buf = [i \in 0..nn |-> INF] /\ j = 1 /\ low = 0 /\ high = 0 /\ ph = "next"
T == row[j]
Skip == ph = "next" /\ j <= Len(row) /\ T > buf[nn] /\ j' = j + 1 /\ UNCHANGED <<row, nn, buf, low, high, ph>>
Start == ph = "next" /\ j <= Len(row) /\ T <= buf[nn] /\ low' = 0 /\ high' = nn + 1 /\ ph' = "find" /\ UNCHANGED <<row, nn, buf, j>>
Find == /\ ph = "find"
        /\ LET mid == low + (high - low) \div 2 IN
           /\ mid \in 0..nn
           /\ IF buf[mid] > T THEN high' = mid /\ low' = low /\ ph' = IF low < mid THEN "find" ELSE "put"
              ELSE IF buf[mid] = T THEN low' = mid /\ high' = high /\ ph' = "put"
              ELSE low' = mid + 1 /\ high' = high /\ ph' = IF mid + 1 < high THEN "find" ELSE "put"
        /\ UNCHANGED <<row, nn, buf, j>>
Put == /\ ph = "put"
       /\ buf' = IF low < nn + 1 /\ buf[nn] # T
                 THEN [i \in 0..nn |-> IF i < low THEN buf[i] ELSE IF i = low THEN T ELSE buf[i-1]] ELSE buf
       /\ j' = j + 1 /\ ph' = "next" /\ UNCHANGED <<row, nn, low, high>>
Next == Skip \/ Start \/ Find \/ Put
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Seen == {i \in 1..Len(row) : i < j}
InBuf == ph = "find" => low \in 0..nn /\ high \in 0..(nn + 1) /\ low < high
Smallest == ph = "next" => \A i \in 0..nn :
    IF i >= Cardinality(Seen) THEN buf[i] = INF
    ELSE /\ Cardinality({k \in Seen : row[k] < buf[i]}) <= i
         /\ Cardinality({k \in Seen : row[k] <= buf[i]}) > i
         /\ \E k \in Seen : row[k] = buf[i]
Done == <>(ph = "next" /\ j > Len(row))
=============================================================================
