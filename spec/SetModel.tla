------------------------------ MODULE SetModel ------------------------------
(* The set as it is stored: an ordered array searched by halving. *)
EXTENDS Coll, Json
CONSTANTS Vals, Emit
VARIABLES arr, mem, res, hist
vars == <<arr, mem, res, hist>>
core == <<arr, mem>>
RECURSIVE Place(_, _, _)          \* <<position, found>> of the insertion search
Place(lo, hi, v) == IF lo >= hi THEN <<lo, FALSE>>
    ELSE LET m == lo + (hi - lo) \div 2 IN
         IF arr[m+1] < v THEN Place(m + 1, hi, v) ELSE IF arr[m+1] > v THEN Place(lo, m, v) ELSE <<m, TRUE>>
RECURSIVE Bin(_, _, _)
Bin(l, r, v) == IF r < l THEN -1
                ELSE LET m == l + (r - l) \div 2 IN
                     IF arr[m+1] = v THEN m ELSE IF arr[m+1] > v THEN Bin(l, m - 1, v) ELSE Bin(m + 1, r, v)
N == Len(arr)
MaxP == Cardinality(Vals)
Ops == [op : {"insert", "remove", "find"}, v : Vals] \cup [op : {"at", "removeat"}, a : 0..MaxP] \cup [op : {"clear", "sort", "empty", "size"}]
Conc(o) ==
    CASE o.op = "insert" -> LET p == Place(0, N, o.v) IN IF p[2] THEN arr' = arr /\ res' = <<0, <<>>>> ELSE arr' = InsAt(arr, p[1], o.v) /\ res' = <<1, <<>>>>
      [] o.op = "remove" -> LET p == Bin(0, N - 1, o.v) IN IF p < 0 THEN arr' = arr /\ res' = <<-1, <<>>>> ELSE arr' = DelAt(arr, p) /\ res' = <<1, <<o.v>>>>
      [] o.op = "find"   -> arr' = arr /\ res' = <<Bin(0, N - 1, o.v), <<>>>>
      [] o.op = "at"     -> arr' = arr /\ res' = (IF o.a >= N THEN <<0, <<>>>> ELSE <<1, <<arr[o.a+1]>>>>)
      [] o.op = "removeat" -> IF o.a >= N THEN arr' = arr /\ res' = <<0, <<>>>> ELSE arr' = DelAt(arr, o.a) /\ res' = <<1, <<arr[o.a+1]>>>>
      [] o.op = "clear"  -> arr' = <<>> /\ res' = <<0, <<>>>>
      [] o.op = "sort"   -> arr' = arr /\ res' = <<0, <<>>>>
      [] o.op = "empty"  -> arr' = arr /\ res' = <<IF N = 0 THEN 1 ELSE 0, <<>>>>
      [] o.op = "size"   -> arr' = arr /\ res' = <<N, <<>>>>
(* the set of elements, the meaning of the operations on it *)
MemDo(o) == CASE o.op = "insert" -> mem \cup {o.v}
              [] o.op = "remove" -> mem \ {o.v}
              [] o.op = "removeat" -> IF o.a < N THEN mem \ {arr[o.a+1]} ELSE mem
              [] o.op = "clear" -> {}
              [] OTHER -> mem
Init == arr = <<>> /\ mem = {} /\ res = <<0, <<>>>> /\ hist = <<[op |-> "init"]>>
Next == \E o \in Ops : /\ Conc(o) /\ mem' = MemDo(o) /\ hist' = Append(hist, o)
                       /\ Assert(\E q \in SetDo(arr, o) : q.st = arr' /\ q.r = res'[1] /\ q.got = res'[2], <<"set", arr, o>>)
                       /\ Emit => PrintT("SEQ " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
Inv == /\ \A i \in 1..(N-1) : arr[i] < arr[i+1]
       /\ Rng(arr) = mem
=============================================================================
