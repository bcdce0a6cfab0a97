------------------------------ MODULE AnModel ------------------------------
(* The analyses as the library carries them out: one pass over a group that   *)
(* keeps running extremes, and a quicksort of labels by keys with an explicit *)
(* stack. Checked against the definitions in AnBase for every small input.    *)
EXTENDS AnBase
CONSTANTS Vals,     \* core distances and pair distances of the points of a group
          MaxN,     \* points of a group, elements to sort
          What      \* "ext" or "sort"
VARIABLES pc, n, c, D, j, k, x,          \* extremes: x = <<mincr, maxcr, mindr, maxdr>>
          lab, key, lab0, key0, stk, up, dn    \* sorting
vars == <<pc, n, c, D, j, k, x, lab, key, lab0, key0, stk, up, dn>>
Pairs(m) == {<<a, b>> \in (1..m) \X (1..m) : a < b}
ExtVars == <<n, c, D, j, k, x>>
SortVars == <<lab, key, lab0, key0, stk, up, dn>>
Init ==
    \/ /\ What = "ext" /\ pc = "point" /\ j = 1 /\ k = 0 /\ x = <<0, 0, INF, DMINL>>
       /\ n \in 1..MaxN /\ c \in [1..n -> Vals] /\ D \in [Pairs(n) -> Vals]
       /\ lab = <<>> /\ key = <<>> /\ lab0 = <<>> /\ key0 = <<>> /\ stk = <<>> /\ up = 0 /\ dn = 0
    \/ /\ What = "sort" /\ pc = "pop" /\ n \in 0..MaxN /\ key \in [1..n -> Vals] /\ lab = [i \in 1..n |-> i]
       /\ lab0 = lab /\ key0 = key /\ stk = <<<<1, n>>>> /\ up = 0 /\ dn = 0
       /\ c = <<>> /\ D = <<>> /\ j = 0 /\ k = 0 /\ x = <<>>
(* ---- extremes *)
Point == /\ pc = "point"
         /\ IF j > n THEN pc' = "done" /\ UNCHANGED <<ExtVars, SortVars>>
            ELSE /\ x' = IF j = 1 THEN [x EXCEPT ![1] = c[1], ![2] = c[1]]
                         ELSE [x EXCEPT ![1] = IF (x[1] > c[j] \/ x[1] = 0) /\ c[j] # 0 THEN c[j] ELSE x[1],
                                        ![2] = Max2(x[2], c[j])]
                 /\ k' = j + 1 /\ pc' = "pair" /\ UNCHANGED <<n, c, D, j, SortVars>>
Pair == /\ pc = "pair"
        /\ IF k > n THEN pc' = "point" /\ j' = j + 1 /\ UNCHANGED <<n, c, D, k, x, SortVars>>
           ELSE /\ LET d == D[<<j, k>>] IN
                   x' = [x EXCEPT ![3] = IF x[3] > d /\ d # 0 THEN d ELSE x[3],
                                  ![4] = IF d > 0 /\ x[4] < d THEN d ELSE x[4]]
                /\ k' = k + 1 /\ UNCHANGED <<pc, n, c, D, j, SortVars>>
(* ---- quicksort: partition around the first element, then both sides *)
Sw(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
Top == stk[Len(stk)]
Pop == /\ pc = "pop" /\ UNCHANGED ExtVars
       /\ IF stk = <<>> THEN pc' = "done" /\ UNCHANGED SortVars
          ELSE IF Top[1] >= Top[2] THEN stk' = Front(stk) /\ UNCHANGED <<pc, lab, key, lab0, key0, up, dn>>
          ELSE up' = Top[1] + 1 /\ dn' = Top[2] /\ pc' = "scan" /\ UNCHANGED <<lab, key, lab0, key0, stk>>
RECURSIVE Up(_, _, _)
Up(u, d, p) == IF u < d /\ key[u] <= p THEN Up(u + 1, d, p) ELSE u
RECURSIVE Down(_, _, _)
Down(u, d, p) == IF u < d /\ key[d] > p THEN Down(u, d - 1, p) ELSE d
Scan == /\ pc = "scan" /\ UNCHANGED ExtVars
        /\ LET p == key[Top[1]]
               u == Up(up, dn, p)
               d == Down(u, dn, p)
           IN IF u < d THEN key' = Sw(key, u, d) /\ lab' = Sw(lab, u, d) /\ up' = u /\ dn' = d /\ UNCHANGED <<pc, lab0, key0, stk>>
              ELSE LET v == IF key[u] > p THEN u - 1 ELSE u IN
                   /\ key' = Sw(key, Top[1], v) /\ lab' = Sw(lab, Top[1], v)
                   /\ stk' = Front(stk) \o <<<<v + 1, Top[2]>>, <<Top[1], v - 1>>>>
                   /\ pc' = "pop" /\ UNCHANGED <<lab0, key0, up, dn>>
Next == Point \/ Pair \/ Pop \/ Scan \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* ---- against the definitions *)
Mat == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN 0 ELSE IF a < b THEN D[<<a, b>>] ELSE D[<<b, a>>]]]
ExtOk == (What = "ext" /\ pc = "done") => x = Extremes(Mat, c, [i \in 1..n |-> i - 1])
SortOk == (What = "sort" /\ pc = "done") => /\ Ascending(key)
                                            /\ SameBag([i \in 1..n |-> <<lab0[i], key0[i]>>], [i \in 1..n |-> <<lab[i], key[i]>>])
InBounds == pc = "scan" => up >= 1 /\ dn <= n /\ up <= dn
Ends == <>(pc = "done")
=============================================================================
