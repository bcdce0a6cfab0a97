----------------------------- MODULE ListModel -----------------------------
(* The array list as it is stored: a block of cap cells of which the first    *)
(* size are in use. Refines ListDo of Coll; emits one operation history per   *)
(* transition, to be replayed into the code.                                   *)
EXTENDS Coll, Json
CONSTANTS Vals, MaxLen, Caps, Emit
VARIABLES blk, size, abs, res, hist
vars == <<blk, size, abs, res, hist>>
core == <<blk, size, abs>>
Junk == -1
cap == Len(blk)
Grown == blk \o [i \in 1..cap |-> Junk]          \* twice the cells (a power of two)
Room == IF size = cap THEN Grown ELSE blk
Stored == SubSeq(blk, 1, size)
Seek(v) == IF \E i \in 1..size : blk[i] = v THEN (CHOOSE i \in 1..size : blk[i] = v /\ \A j \in 1..(i-1) : blk[j] # v) - 1 ELSE -1
RECURSIVE Bin(_, _, _)
Bin(l, r, v) == IF r < l THEN -1
                ELSE LET m == l + (r - l) \div 2 IN
                     IF blk[m+1] = v THEN m ELSE IF blk[m+1] > v THEN Bin(l, m - 1, v) ELSE Bin(m + 1, r, v)
Shift(b, p) == [i \in 1..Len(b) |-> IF i > p + 1 /\ i <= size + 1 THEN b[i-1] ELSE b[i]]    \* memmove right
Unshift(b, p) == [i \in 1..Len(b) |-> IF i > p /\ i < size THEN b[i+1] ELSE b[i]]           \* memmove left
Ops == [op : {"append"}, v : Vals] \cup [op : {"insert", "replace"}, v : Vals, a : 0..MaxLen]
       \cup [op : {"at", "removeat"}, a : 0..MaxLen] \cup [op : {"remove"}, v : Vals]
       \cup [op : {"find"}, v : Vals, a : {0, 1}] \cup [op : {"clear"}, a : {0, 1}]
       \cup [op : {"pop", "sort", "empty", "size"}]
Keep == UNCHANGED <<blk, size>>
Set_(b, n) == blk' = b /\ size' = n
Conc(o) ==
    CASE o.op = "append"  -> Set_([Room EXCEPT ![size + 1] = o.v], size + 1) /\ res' = <<1, <<>>>>
      [] o.op = "insert"  -> Set_([Shift(Room, o.a) EXCEPT ![o.a + 1] = o.v], size + 1) /\ res' = <<1, <<>>>>
      [] o.op = "replace" -> IF o.a >= size THEN Keep /\ res' = <<0, <<>>>> ELSE Set_([blk EXCEPT ![o.a + 1] = o.v], size) /\ res' = <<1, <<>>>>
      [] o.op = "at"      -> Keep /\ res' = (IF o.a >= size THEN <<0, <<>>>> ELSE <<1, <<blk[o.a + 1]>>>>)
      [] o.op = "removeat"-> IF o.a >= size THEN Keep /\ res' = <<0, <<>>>> ELSE Set_(Unshift(blk, o.a), size - 1) /\ res' = <<1, <<blk[o.a + 1]>>>>
      [] o.op = "remove"  -> IF Seek(o.v) < 0 THEN Keep /\ res' = <<-1, <<>>>> ELSE Set_(Unshift(blk, Seek(o.v)), size - 1) /\ res' = <<1, <<o.v>>>>
      [] o.op = "pop"     -> IF size = 0 THEN Keep /\ res' = <<-1, <<>>>> ELSE Set_(blk, size - 1) /\ res' = <<1, <<blk[size]>>>>
      [] o.op = "find"    -> Keep /\ res' = <<IF o.a = 1 THEN Bin(0, size - 1, o.v) ELSE Seek(o.v), <<>>>>
      [] o.op = "sort"    -> Set_(Asc(Stored) \o SubSeq(blk, size + 1, cap), size) /\ res' = <<0, <<>>>>
      [] o.op = "clear"   -> Set_(IF o.a = 1 THEN <<blk[1]>> ELSE blk, 0) /\ res' = <<0, <<>>>>
      [] o.op = "empty"   -> Keep /\ res' = <<IF size = 0 THEN 1 ELSE 0, <<>>>>
      [] o.op = "size"    -> Keep /\ res' = <<size, <<>>>>
Init == \E c \in Caps : blk = [i \in 1..c |-> Junk] /\ size = 0 /\ abs = <<>> /\ res = <<0, <<>>>> /\ hist = <<[op |-> "init", a |-> c]>>
Next == \E o \in Ops :
          /\ ListPre(abs, o)
          /\ size = MaxLen => o.op \notin {"append", "insert"}
          /\ Conc(o)
          /\ \E q \in ListDo(abs, o) : q.r = res'[1] /\ abs' = q.st
          /\ hist' = Append(hist, o)
          /\ Emit => PrintT("SEQ " \o ToJson(hist'))
(* a step of the stored list that the abstract list does not allow *)
Stuck == \E o \in Ops : /\ ListPre(abs, o) /\ ~(size = MaxLen /\ o.op \in {"append", "insert"})
                        /\ ~ENABLED (Conc(o) /\ UNCHANGED <<abs, hist>> /\ \E q \in ListDo(abs, o) : q.r = res'[1] /\ q.got = res'[2] /\ q.st = SubSeq(blk', 1, size'))
Spec == Init /\ [][Next]_vars
Inv == Stored = abs /\ size <= cap /\ (~Emit => ~Stuck)
=============================================================================
