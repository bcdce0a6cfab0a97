------------------------------ MODULE GraphModel ------------------------------
(* Graph operations as they are carried out: edges in an array, sorted in      *)
(* place with a stack of half as many entries as there are edges.              *)
EXTENDS Graph, Json
CONSTANTS NV, MaxE, Ws, Emit, Ops
VARIABLES es, adj, ghost, gadj, stk, pc, old, hist
(* es, adj: stored; ghost, gadj: what they mean *)
vars == <<es, adj, ghost, gadj, stk, pc, old, hist>>
core == <<es, adj, stk, pc, old>>
V == 0..(NV - 1)
E == {<<a, b, w>> : a \in V, b \in V, w \in Ws}
Graphs == {s \in UNION {[1..m -> {e \in E : e[1] <= e[2]}] : m \in 0..MaxE} : \A v \in V : Cardinality({i \in DOMAIN s : s[i][1] = v /\ s[i][2] = v}) <= 1}
Init == /\ es \in Graphs /\ adj = Adjacency(NV, es) /\ ghost = es /\ gadj = adj /\ stk = <<>> /\ pc = "idle" /\ old = <<>>
        /\ hist = <<[op |-> "init", es |-> es]>>
Log(o) == IF Emit THEN Append(hist, o) ELSE hist
(* the sort, one range per step *)
Pivot(lo, hi) == lo                                        \* as written, the first of the range is always taken
RECURSIVE Part(_, _, _, _, _)
Part(s, i, lo, hi, pv) == IF i >= hi THEN <<Exchange(s, lo + 1, hi + 1), lo>>
    ELSE IF s[i+1][3] < pv THEN Part(Exchange(s, i + 1, lo + 1), i + 1, lo + 1, hi, pv) ELSE Part(s, i + 1, lo, hi, pv)
Begin == /\ pc = "idle" /\ "sort" \in Ops /\ Len(es) > 1
         /\ stk' = << <<0, Len(es) - 1>> >> /\ pc' = "sort" /\ old' = es /\ UNCHANGED <<es, adj, ghost, gadj>>
         /\ hist' = Log([op |-> "sort"])
Step == /\ pc = "sort"
        /\ LET lo == stk[Len(stk)][1]
               hi == stk[Len(stk)][2]
               q  == Part(Exchange(es, Pivot(lo, hi) + 1, hi + 1), lo, lo, hi, es[Pivot(lo, hi) + 1][3])
               p  == q[2]
               s0 == SubSeq(stk, 1, Len(stk) - 1)
               s1 == IF p > lo + 1 THEN Append(s0, <<lo, p - 1>>) ELSE s0
               s2 == IF p < hi - 1 THEN Append(s1, <<p + 1, hi>>) ELSE s1
           IN /\ es' = q[1] /\ stk' = s2 /\ pc' = (IF s2 = <<>> THEN "idle" ELSE "sort")
              /\ Assert(Split(es, q[1], lo, hi, Pivot(lo, hi), p), <<"split", es>>)
              /\ ghost' = (IF s2 = <<>> THEN q[1] ELSE ghost)
              /\ old' = (IF s2 = <<>> THEN <<>> ELSE old)
              /\ (s2 = <<>> => Assert(Sorted(old, q[1], 0, Len(es) - 1), <<"sort", old>>))
        /\ UNCHANGED <<adj, gadj, hist>>
Swap == /\ pc = "idle" /\ "swap" \in Ops /\ \E i, j \in 1..Len(es) : es' = Exchange(es, i, j) /\ ghost' = es' /\ hist' = Log([op |-> "swap", a |-> i - 1, b |-> j - 1])
        /\ UNCHANGED <<adj, gadj, stk, pc, old>>
(* removal as two searches of the stored lists, one from each end *)
Once(f, a, b) == [f EXCEPT ![a] = Without(@, b)]
Remove == /\ pc = "idle" /\ "remove" \in Ops /\ \E a, b \in V : /\ adj' = Once(Once(adj, a, b), b, a) /\ gadj' = Removed(gadj, a, b)
                                               /\ hist' = Log([op |-> "remove", a |-> a, b |-> b])
          /\ UNCHANGED <<es, ghost, stk, pc, old>>
Next == (Begin \/ Step \/ Swap \/ Remove) /\ (Emit /\ pc = "idle" => PrintT("SEQ " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
StackOk == Len(stk) <= (IF Len(es) \div 2 > 0 THEN Len(es) \div 2 ELSE 1)
RangesOk == \A i \in DOMAIN stk : stk[i][1] >= 0 /\ stk[i][1] < stk[i][2] /\ stk[i][2] < Len(es)
Kept == SameAdj(adj, gadj) /\ (pc = "idle" => SameBag(es, ghost))
Symmetric == \A a, b \in V : a # b => Count(adj[a], b) = Count(adj[b], a)
Finishes == (pc = "sort") ~> (pc = "idle")
=============================================================================
