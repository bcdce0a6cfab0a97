----------------------------- MODULE HashModel -----------------------------
(* The hashtable as it is stored: a chain of entries per bucket, new entries  *)
(* in front, and the ordered list of the keys present. Clearing walks the     *)
(* keys and empties the whole bucket of each.                                  *)
EXTENDS Coll, Json
CONSTANTS Keys, Vals, B, Emit
VARIABLES ch, keys, cnt, abs, rel, hist
vars == <<ch, keys, cnt, abs, rel, hist>>
core == <<ch, keys, cnt, abs>>
H(k) == (k % B) + 1
RECURSIVE Walk(_, _, _)
Walk(c, i, k) == IF i > Len(c) THEN 0 ELSE IF c[i][1] = k THEN i ELSE Walk(c, i + 1, k)
Idx(k) == Walk(ch[H(k)], 1, k)
Ops == [op : {"insert"}, key : Keys, v : Vals] \cup [op : {"lookup", "remove"}, key : Keys]
       \cup [op : {"clear"}, a : 0..3] \cup [op : {"size", "empty"}]
RECURSIVE Drain(_, _, _)      \* what clear hands to the release functions
Drain(c, ks, out) == IF ks = <<>> THEN out
    ELSE LET b == H(Head(ks)) IN Drain([c EXCEPT ![b] = <<>>], Tail(ks), out \o c[b])
Do(o) ==
    CASE o.op = "insert" ->
           LET i == Idx(o.key) b == H(o.key) IN
           IF i = 0 THEN /\ ch' = [ch EXCEPT ![b] = <<<<o.key, o.v>>>> \o @] /\ keys' = Asc(Append(keys, o.key)) /\ cnt' = cnt + 1 /\ rel' = <<1, <<>>>>
           ELSE /\ ch' = [ch EXCEPT ![b][i][2] = o.v] /\ rel' = <<-1, <<ch[b][i][2]>>>> /\ UNCHANGED <<keys, cnt>>
      [] o.op = "lookup" -> LET i == Idx(o.key) IN UNCHANGED <<ch, keys, cnt>> /\ rel' = (IF i = 0 THEN <<0, <<>>>> ELSE <<1, <<ch[H(o.key)][i][2]>>>>)
      [] o.op = "remove" -> LET i == Idx(o.key) b == H(o.key) IN
           IF i = 0 THEN UNCHANGED <<ch, keys, cnt>> /\ rel' = <<0, <<>>>>
           ELSE /\ ch' = [ch EXCEPT ![b] = DelAt(@, i - 1)] /\ keys' = DelAt(keys, First(keys, o.key)) /\ cnt' = cnt - 1 /\ rel' = <<1, <<ch[b][i][2]>>>>
      [] o.op = "clear" -> /\ ch' = [b \in 1..B |-> <<>>] /\ keys' = <<>> /\ cnt' = 0 /\ rel' = <<1, <<>>>>
      [] o.op = "size" -> UNCHANGED <<ch, keys, cnt>> /\ rel' = <<Len(keys), <<>>>>
      [] o.op = "empty" -> UNCHANGED <<ch, keys, cnt>> /\ rel' = <<IF cnt = 0 THEN 1 ELSE 0, <<>>>>
Init == ch = [b \in 1..B |-> <<>>] /\ keys = <<>> /\ cnt = 0 /\ abs = NoMap /\ rel = <<0, <<>>>> /\ hist = <<[op |-> "initsize", a |-> B]>>
Next == \E o \in Ops : /\ Do(o) /\ hist' = Append(hist, o)
                       /\ LET q == CHOOSE x \in MapDo(abs, o) : TRUE IN abs' = q.st /\ Assert(q.r = rel'[1] /\ q.got = rel'[2], <<"hash", abs, o>>)
                       /\ o.op = "clear" => Assert(LET d == Drain(ch, keys, <<>>) IN Len(d) = Cardinality(DOMAIN abs) /\ {<<k, abs[k]>> : k \in DOMAIN abs} = Rng(d), <<"clear", ch>>)
                       /\ Emit => PrintT("SEQ " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
Entries == UNION {Rng(ch[b]) : b \in 1..B}
Inv == /\ Entries = {<<k, abs[k]>> : k \in DOMAIN abs}
       /\ FoldFunction(LAMBDA c, a : Len(c) + a, 0, ch) = cnt
       /\ Rng(keys) = DOMAIN abs /\ Len(keys) = cnt /\ Sorted(keys)
=============================================================================
