--------------------------------- MODULE Bind ---------------------------------
(* An object of another language (Python, Java) that wraps a clustering       *)
(* object: what every call does to it and whether the call is served or       *)
(* raises an exception. A call that raises changes nothing.                   *)
EXTENDS Integers, Sequences, FiniteSets
None == [st |-> "none", mp |-> 0, res |-> <<>>, lab |-> <<>>]
(* st: none (does not exist), raw (exists, its initialisation never           *)
(* succeeded), ready; res: <<data, minimum>> of the results held, <<>> if     *)
(* none; lab: of the labels shown                                             *)
(* op: what is called; mp: minimum; k, good: data set and whether it can be   *)
(* clustered; b, e, n: range and number of points; args: arguments of the     *)
(* right kind; drop: the label member is deleted, poke: a member that only    *)
(* shows something is overwritten, which changes nothing the object does      *)
Ready(x) == x.st = "ready"
Served(x, o) ==
    CASE o.op \in {"new", "reinit"} -> o.args /\ o.mp >= 2
      [] o.op = "raw" -> TRUE
      [] o.op = "run" -> Ready(x) /\ o.args /\ o.good
      [] o.op = "rerun" -> Ready(x) /\ o.args /\ x.res # <<>> /\ o.mp >= 2
      [] o.op = "groups" -> Ready(x) /\ o.args /\ x.res # <<>> /\ 0 <= o.b /\ o.b <= o.e /\ o.e <= o.n
      [] o.op = "hier" -> Ready(x) /\ x.res # <<>>
      [] o.op \in {"labels", "drop"} -> x.lab # <<>>
      [] o.op = "poke" -> TRUE
      [] o.op \in {"clean", "del"} -> TRUE
After(x, o) ==
    IF ~Served(x, o) THEN x
    ELSE CASE o.op = "new" -> [None EXCEPT !.st = "ready", !.mp = o.mp]
           [] o.op = "reinit" -> [x EXCEPT !.st = "ready", !.mp = o.mp, !.res = <<>>]
           [] o.op = "raw" -> [None EXCEPT !.st = "raw"]
           [] o.op = "run" -> [x EXCEPT !.res = <<o.k, x.mp>>, !.lab = <<o.k, x.mp>>]
           [] o.op = "rerun" -> [x EXCEPT !.mp = o.mp, !.res = <<x.res[1], o.mp>>, !.lab = <<x.res[1], o.mp>>]
           [] o.op = "clean" -> [x EXCEPT !.res = <<>>, !.lab = <<>>]
           [] o.op = "drop" -> [x EXCEPT !.lab = <<>>]
           [] o.op = "del" -> None
           [] OTHER -> x
(* the groups of the positions b..e-1 (from 0) of a label array *)
Groups(l, b, e) == {<<v, SelectSeq([i \in 1..(e - b) |-> b + i - 1], LAMBDA p : l[p + 1] = v)>> : v \in {l[p + 1] : p \in b..(e - 1)}}
===============================================================================
