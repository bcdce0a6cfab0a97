------------------------------ MODULE BindModel ------------------------------
(* Every history of calls on several wrapping objects. Checked: results are   *)
(* those of the last data and minimum of the object itself, a call that       *)
(* raises changes nothing, a call on one object changes no other. One history *)
(* per transition is printed, to be replayed in the real modules.             *)
EXTENDS Bind, TLC, Json
CONSTANTS Objs, Datas, MPs, Lang, Depth
VARIABLES x, hist
vars == <<x, hist>>
N == 5
Kinds == IF Lang = "py" THEN {"new", "reinit", "raw", "run", "rerun", "groups", "hier", "labels", "drop", "poke", "del"} ELSE {"new", "run", "rerun", "groups", "labels", "clean", "del"}
Args(op) ==
    CASE op \in {"new", "reinit", "rerun"} -> {[mp |-> m, args |-> a] : m \in MPs, a \in (IF Lang = "py" THEN BOOLEAN ELSE {TRUE})}
      [] op = "run" -> {[k |-> k, good |-> k > 0, args |-> a] : k \in Datas, a \in (IF Lang = "py" THEN BOOLEAN ELSE {TRUE})}
      [] op = "groups" -> {[b |-> r[1], e |-> r[2], n |-> N, args |-> TRUE] : r \in (IF Lang = "py" THEN {<<0, N>>, <<1, 3>>, <<2, 2>>, <<3, 2>>, <<-1, 2>>, <<0, N + 1>>} ELSE {<<0, N>>})}
      [] OTHER -> {[args |-> TRUE]}
Merge(a, b) == [f \in (DOMAIN a) \cup (DOMAIN b) |-> IF f \in DOMAIN a THEN a[f] ELSE b[f]]
Init == x = [h \in Objs |-> None] /\ hist = <<>>
Do(h, o) == /\ (o.op \in {"new", "raw"}) = (x[h].st = "none")
            /\ (Lang = "py" /\ o.op = "rerun" /\ ~o.args) => o.mp >= 2
            /\ x' = [x EXCEPT ![h] = After(x[h], o)]
            /\ hist' = Append(hist, Merge(o, [h |-> h]))
            /\ (Depth \in {0, Len(hist')}) => PrintT("SEQ " \o ToJson(hist'))
Next == \E h \in Objs, op \in Kinds : \E a \in Args(op) : Do(h, Merge([op |-> op], a))
Spec == Init /\ [][Next]_vars
Short == Depth = 0 \/ Len(hist) < Depth
Own == \A h \in Objs : x[h].res # <<>> => x[h].res[2] = x[h].mp /\ x[h].st = "ready" /\ x[h].lab \in {x[h].res, <<>>}
Apart == [][\E h \in Objs : \A g \in Objs \ {h} : x[g] = x'[g]]_x
Kept == [][LET o == hist'[Len(hist')] IN ~Served(x[o.h], o) => x' = x]_hist
View == x
==============================================================================
