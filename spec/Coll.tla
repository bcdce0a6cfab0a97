-------------------------------- MODULE Coll --------------------------------
(* What the collections do, as functions of abstract states: an operation on  *)
(* a state gives the set of allowed outcomes [st, r, got].                     *)
(*   array list, linked list: a sequence      set: an ascending sequence       *)
(*   hashtable: a function from keys to values                                 *)
(* Positions are counted from 0 as in the API. got is a sequence with the      *)
(* value handed out, if any.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Rng(s) == {s[i] : i \in DOMAIN s}
InsAt(s, p, v) == SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))
Sorted(s) == \A i \in 1..(Len(s)-1) : s[i] <= s[i+1]
Asc(s) == IF Sorted(s) THEN s ELSE SortSeq(s, LAMBDA a, b : a < b)
AscSet(S) == Asc(SetToSeq(S))
Put1(s, v) == InsAt(s, Cardinality({i \in DOMAIN s : s[i] < v}), v)          \* into an ascending sequence
DelAt(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
First(s, v) == IF v \in Rng(s) THEN (CHOOSE i \in 1..Len(s) : s[i] = v /\ \A j \in 1..(i-1) : s[j] # v) - 1 ELSE -1
Has(s, p) == p >= 0 /\ p < Len(s)
Out(s, r, g) == {[st |-> s, r |-> r, got |-> g]}

(* ------------------------------------------------------------- array list *)
ListDo(s, o) ==
    CASE o.op = "append"  -> Out(Append(s, o.v), 1, <<>>)
      [] o.op = "bulk"    -> Out(s \o o.vs, Len(o.vs), <<>>)
      [] o.op = "insert"  -> Out(InsAt(s, o.a, o.v), 1, <<>>)
      [] o.op = "replace" -> IF Has(s, o.a) THEN Out([s EXCEPT ![o.a + 1] = o.v], 1, <<>>) ELSE Out(s, 0, <<>>)
      [] o.op = "at"      -> IF Has(s, o.a) THEN Out(s, 1, <<s[o.a + 1]>>) ELSE Out(s, 0, <<>>)
      [] o.op = "removeat"-> IF Has(s, o.a) THEN Out(DelAt(s, o.a), 1, <<s[o.a + 1]>>) ELSE Out(s, 0, <<>>)
      [] o.op = "remove"  -> IF o.v \in Rng(s) THEN Out(DelAt(s, First(s, o.v)), 1, <<o.v>>) ELSE Out(s, -1, <<>>)
      [] o.op = "pop"     -> IF s # <<>> THEN Out(SubSeq(s, 1, Len(s) - 1), 1, <<s[Len(s)]>>) ELSE Out(s, -1, <<>>)
      [] o.op = "find"    -> IF o.a = 0 THEN Out(s, First(s, o.v), <<>>)
                             ELSE IF o.v \notin Rng(s) THEN Out(s, -1, <<>>)
                             ELSE {[st |-> s, r |-> i - 1, got |-> <<>>] : i \in {j \in 1..Len(s) : s[j] = o.v}}
      [] o.op = "sort"    -> Out(Asc(s), 0, <<>>)
      [] o.op = "clear"   -> Out(<<>>, 0, <<>>)
      [] o.op = "empty"   -> Out(s, IF s = <<>> THEN 1 ELSE 0, <<>>)
      [] o.op = "size"    -> Out(s, Len(s), <<>>)
ListPre(s, o) == /\ o.op = "insert" => o.a \in 0..Len(s)
                 /\ (o.op = "find" /\ o.a = 1) => Sorted(s)

(* -------------------------------------------------------------------- set *)
SetDo(s, o) ==
    CASE o.op = "insert"  -> IF o.v \in Rng(s) THEN Out(s, 0, <<>>) ELSE Out(Put1(s, o.v), 1, <<>>)
      [] o.op = "bulk"    -> LET n == Rng(s) \cup Rng(o.vs) IN Out(AscSet(n), Cardinality(n) - Len(s), <<>>)
      [] o.op = "remove"  -> IF o.v \in Rng(s) THEN Out(DelAt(s, First(s, o.v)), 1, <<o.v>>) ELSE Out(s, -1, <<>>)
      [] o.op = "removeat"-> IF Has(s, o.a) THEN Out(DelAt(s, o.a), 1, <<s[o.a + 1]>>) ELSE Out(s, 0, <<>>)
      [] o.op = "at"      -> IF Has(s, o.a) THEN Out(s, 1, <<s[o.a + 1]>>) ELSE Out(s, 0, <<>>)
      [] o.op = "find"    -> Out(s, First(s, o.v), <<>>)
      [] o.op = "sort"    -> Out(s, 0, <<>>)
      [] o.op = "clear"   -> Out(<<>>, 0, <<>>)
      [] o.op = "empty"   -> Out(s, IF s = <<>> THEN 1 ELSE 0, <<>>)
      [] o.op = "size"    -> Out(s, Len(s), <<>>)

(* -------------------------------------------------------------- hashtable *)
NoMap == [k \in {} |-> 0]
Put(m, k, v) == [q \in (DOMAIN m) \cup {k} |-> IF q = k THEN v ELSE m[q]]
Del(m, k) == [q \in (DOMAIN m) \ {k} |-> m[q]]
RECURSIVE PairOf(_, _, _, _)
PairOf(v, q, lo, hi) == LET k == (lo + hi) \div 2 IN IF v[k][1] = q THEN v[k][2] ELSE IF v[k][1] < q THEN PairOf(v, q, k + 1, hi) ELSE PairOf(v, q, lo, k - 1)
MapDo(m, o) ==
    CASE o.op = "insert"  -> IF o.key \in DOMAIN m THEN Out(Put(m, o.key, o.v), -1, <<m[o.key]>>) ELSE Out(Put(m, o.key, o.v), 1, <<>>)
      [] o.op = "bulk"    -> LET new == {o.vs[i][1] : i \in DOMAIN o.vs}                \* its keys are distinct
                                 u == SetToSeq(Rng(o.vs))
                                 v == IF \A i \in 1..(Len(u)-1) : u[i][1] < u[i+1][1] THEN u ELSE SortSeq(u, LAMBDA a, b : a[1] < b[1])
                             IN Out([q \in (DOMAIN m) \cup new |-> IF q \in new THEN PairOf(v, q, 1, Len(v)) ELSE m[q]], Cardinality(new \ DOMAIN m), <<>>)
      [] o.op = "lookup"  -> IF o.key \in DOMAIN m THEN Out(m, 1, <<m[o.key]>>) ELSE Out(m, 0, <<>>)
      [] o.op = "remove"  -> IF o.key \in DOMAIN m THEN Out(Del(m, o.key), 1, <<m[o.key]>>) ELSE Out(m, 0, <<>>)
      [] o.op = "clear"   -> Out(NoMap, 1, <<>>)
      [] o.op = "destroy" -> Out(NoMap, 1, <<>>)
      [] o.op = "size"    -> Out(m, Cardinality(DOMAIN m), <<>>)
      [] o.op = "empty"   -> Out(m, IF DOMAIN m = {} THEN 1 ELSE 0, <<>>)

(* ------------------------------------------------------------ linked list *)
LinkDo(s, o) ==
    CASE o.op \in {"front", "nfront"} -> Out(<<o.v>> \o s, 1, <<>>)
      [] o.op \in {"tail", "ntail"}   -> Out(Append(s, o.v), 1, <<>>)
      [] o.op = "bulk"    -> Out(s \o o.vs, Len(o.vs), <<>>)
      [] o.op = "lookup"  -> IF o.v \in Rng(s) THEN Out(s, 1, <<o.v>>) ELSE Out(s, 0, <<>>)
      [] o.op = "take"    -> IF o.v \in Rng(s) THEN Out(DelAt(s, First(s, o.v)), 1, <<o.v>>) ELSE Out(s, 0, <<>>)
      [] o.op = "remove"  -> IF o.v \in Rng(s) THEN Out(DelAt(s, First(s, o.v)), 1, <<>>) ELSE Out(s, 0, <<>>)
      [] o.op = "gethead" -> IF s # <<>> THEN Out(s, 1, <<s[1]>>) ELSE Out(s, 0, <<>>)
      [] o.op = "gettail" -> IF s # <<>> THEN Out(s, 1, <<s[Len(s)]>>) ELSE Out(s, 0, <<>>)
      [] o.op = "at"      -> IF Has(s, o.a) THEN Out(s, o.a, <<s[o.a + 1]>>) ELSE Out(s, -1, <<>>)
      [] o.op = "notempty"-> Out(s, IF s = <<>> THEN 0 ELSE 1, <<>>)
      [] o.op = "clear"   -> Out(<<>>, 0, <<>>)
=============================================================================
