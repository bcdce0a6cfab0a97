-------------------------------- MODULE Life --------------------------------
(* The life of clustering objects and of the analyses made from them, with    *)
(* the blocks each operation releases and allocates the way the library does  *)
(* it. Checked: nothing is lost (live = what is still reachable), nothing is  *)
(* released twice, and results are those of the last data and minimum only.   *)
(* With Emit one history per transition is printed, to be replayed in the     *)
(* code.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs,      \* objects
          Datas,     \* data sets 0, 1, ..
          MPs,       \* minimum numbers of points
          Mems,      \* where an object lives: "heap", "st" (given by the caller)
          Maps,      \* analyses are made as well
          Cons,      \* objects are given constraints as well
          Emit,
          Depth      \* 0: every transition, otherwise every history of this length
VARIABLES o,         \* state of every object
          live,      \* blocks that are allocated
          twice,     \* a block was released twice
          hist
vars == <<o, live, twice, hist>>
core == <<o, live, twice>>
None == [mem |-> "none", mp |-> 0, dist |-> 0, resl |-> 0, cl |-> 0, cs |-> 0, res |-> <<>>, cm |-> <<>>, dm |-> <<>>, sl |-> <<>>]
(* blocks: an object on the heap 1; distances 2 (distances, core distances);  *)
(* results of a run 5 (tree, hierarchy, labels, scores, clusters' contents)   *)
(* and cluster list and stability table 2, released only by clean             *)
Init == o = [h \in Objs |-> None] /\ live = 0 /\ twice = FALSE /\ hist = <<>>
Do(h, s, d, op) == /\ o' = [o EXCEPT ![h] = s] /\ live' = live + d /\ UNCHANGED twice
                   /\ hist' = Append(hist, op)
                   /\ (Emit /\ Depth \in {0, Len(hist')}) => PrintT("SEQ " \o ToJson(hist'))
Size(x) == x.dist + x.resl + x.cl + x.cs
Held(x) == (IF x.mem = "heap" THEN 1 ELSE 0) + Size(x) + Len(x.cm) + Len(x.dm) + Len(x.sl)

DoInit(h) == \E m \in Mems, p \in MPs :
    /\ o[h].mem = "none"
    /\ Do(h, [o[h] EXCEPT !.mem = m, !.mp = p], IF m = "heap" THEN 1 ELSE 0, [op |-> "init", h |-> h, mp |-> p, mem |-> m])
Cleaned(x) == [x EXCEPT !.dist = 0, !.resl = 0, !.cl = 0, !.cs = 0, !.res = <<>>]
DoRun(h) == \E k \in Datas :
    /\ o[h].mem # "none"
    /\ Do(h, [Cleaned(o[h]) EXCEPT !.dist = 2, !.cl = 2, !.resl = 5, !.res = <<k, o[h].mp>>], 9 - Size(o[h]), [op |-> "run", h |-> h, k |-> k])
DoRerun(h) == \E p \in MPs :                 \* keeps distances, cluster list and table
    /\ o[h].res # <<>>
    /\ Do(h, [o[h] EXCEPT !.resl = 5, !.cs = 0, !.mp = p, !.res = <<o[h].res[1], p>>], 5 - o[h].resl - o[h].cs, [op |-> "rerun", h |-> h, mp |-> p])
DoCons(h) == /\ Cons /\ o[h].mem # "none" /\ o[h].cs = 0     \* a list of one constraint, both now the object's
             /\ Do(h, [o[h] EXCEPT !.cs = 2], 2, [op |-> "cons", h |-> h])
DoClean(h) == /\ o[h].mem # "none"
              /\ Do(h, Cleaned(o[h]), -Size(o[h]), [op |-> "clean", h |-> h])
Over(x) == [x EXCEPT !.mem = "none", !.mp = 0]
DoDestroy(h) == /\ o[h].mem = "heap"
                /\ Do(h, Over(Cleaned(o[h])), -Size(o[h]) - 1, [op |-> "destroy", h |-> h])
DoAbandon(h) == /\ o[h].mem = "st" /\ Size(o[h]) = 0      \* the caller takes cleaned memory back
                /\ Do(h, Over(o[h]), 0, [op |-> "abandon", h |-> h])
DoCMap(h) == /\ Maps /\ o[h].res # <<>> /\ o[h].cm = <<>>
             /\ Do(h, [o[h] EXCEPT !.cm = <<o[h].res>>], 1, [op |-> "cmap", h |-> h])
DoDMap(h) == /\ Maps /\ o[h].res # <<>> /\ o[h].cm # <<>> /\ o[h].dm = <<>> /\ o[h].cm = <<o[h].res>>
             /\ Do(h, [o[h] EXCEPT !.dm = o[h].cm], 1, [op |-> "dmap", h |-> h])
DoSort(h) == /\ o[h].dm # <<>> /\ o[h].sl = <<>>
             /\ Do(h, [o[h] EXCEPT !.sl = o[h].dm], 1, [op |-> "sort", h |-> h])
DoFree(h) == \/ o[h].cm # <<>> /\ Do(h, [o[h] EXCEPT !.cm = <<>>], -1, [op |-> "cfree", h |-> h])
             \/ o[h].dm # <<>> /\ Do(h, [o[h] EXCEPT !.dm = <<>>], -1, [op |-> "dfree", h |-> h])
             \/ o[h].sl # <<>> /\ Do(h, [o[h] EXCEPT !.sl = <<>>], -1, [op |-> "sfree", h |-> h])
Next == \E h \in Objs : DoInit(h) \/ DoRun(h) \/ DoRerun(h) \/ DoClean(h) \/ DoCons(h) \/ DoDestroy(h) \/ DoAbandon(h)
                        \/ DoCMap(h) \/ DoDMap(h) \/ DoSort(h) \/ DoFree(h)
Short == Depth = 0 \/ Len(hist) < Depth
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET h == CHOOSE h \in S : TRUE IN Held(o[h]) + Sum(S \ {h})
NoLeak == live = Sum(Objs)
Gone == (\A h \in Objs : o[h] = None) => live = 0
Fresh == \A h \in Objs : o[h].res # <<>> => o[h].res[2] = o[h].mp /\ o[h].dist = 2 /\ o[h].resl = 5 /\ o[h].cl = 2
(* an operation on one object changes nothing of another *)
Apart == [][\E h \in Objs : \A g \in Objs \ {h} : o[g] = o'[g]]_core
=============================================================================
