-------------------------------- MODULE Dist --------------------------------
(* Distance objects on their own: made, computed from a data set for a number  *)
(* of neighbours, asked for the core distances of another number, computed     *)
(* again, cleaned and destroyed, several side by side.                         *)
EXTENDS HdbBase

None == [st |-> "none", k |-> 0, nn |-> 0]
(* o: [op, k (data set), nn] *)
After(x, o) ==
    CASE o.op = "init"    -> [st |-> "fresh", k |-> 0, nn |-> 2]
      [] o.op = "compute" -> [st |-> "full", k |-> o.k, nn |-> o.nn]
      [] o.op = "cores"   -> [x EXCEPT !.nn = o.nn]
      [] o.op = "clean"   -> [x EXCEPT !.st = "fresh"]
      [] o.op = "destroy" -> None
May(x, o) == CASE o.op = "init" -> x.st = "none"
               [] o.op = "cores" -> x.st = "full"
               [] OTHER -> x.st # "none"
(* the distance to the nn-th nearest other point; the point itself is the 0th *)
Cores(D, nn) == CoreDists(D, nn + 1)
=============================================================================
