------------------------------ MODULE UtilTrace ------------------------------
(* Recorded calls of the functions of Util; values of a type are given by      *)
(* their places in its order.                                                  *)
EXTENDS Util, Json
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, seen, objs, bad
vars == <<tr, pos, seen, objs, bad>>
Ev == TR[tr].ev[pos]
None == [k \in {} |-> 0]
Init == tr \in 1..Len(TR) /\ pos = 1 /\ bad = "" /\ seen = None /\ objs = {}
Reject(why) == bad' = why /\ UNCHANGED <<tr, pos, seen, objs>> /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, "C33 " \o why>>)
Adv == pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Ok(c, why) == IF c THEN Adv /\ UNCHANGED <<seen, objs>> ELSE Reject(why)
Cmp == Ok(Ev.r = Order(Ev.a, Ev.b) /\ Ev.s = Order(Ev.b, Ev.a) /\ Ev.pr = Ev.r /\ Ev.ps = Ev.s, "comparison of values")
Hash == IF Agrees(seen, Ev.t, Ev.a, Ev.n, Ev.r) /\ Ev.same = 1
        THEN seen' = (<<Ev.t, Ev.a, Ev.n>> :> Ev.r) @@ seen /\ UNCHANGED objs /\ Adv
        ELSE Reject("hash of a value")
(* a value object is in the storage given, or in storage of its own *)
Make == IF Ev.given = 1 /\ Ev.same = 0 THEN Reject("an object given storage lies elsewhere")
        ELSE IF Ev.got # Ev.want THEN Reject("fields of an object")
        ELSE objs' = (IF Ev.given = 1 THEN objs ELSE objs \cup {Ev.k}) /\ UNCHANGED seen /\ Adv
Mem == IF Ev.bad # 0 \/ Ev.over # 0 THEN Reject("memory released twice or used outside its bounds")
       ELSE IF objs = {} /\ Ev.live # 0 THEN Reject("memory never released")
       ELSE Adv /\ UNCHANGED <<seen, objs>>
Next == /\ bad = ""
        /\ IF pos > Len(TR[tr].ev) THEN UNCHANGED vars
           ELSE CASE Ev.e = "ucmp" -> Cmp
                  [] Ev.e = "uhash" -> Hash
                  [] Ev.e = "usize" -> Ok(Ev.r = Sizes[Ev.t], "size of a type")
                  [] Ev.e = "uprime" -> Ok(Ev.r = PrimeBelow(Ev.n), "greatest prime number below")
                  [] Ev.e = "unext" -> Ok(IF Ev.n = Greatest THEN TRUE ELSE Ev.r > Ev.n /\ IsPrime(Ev.r), "a prime number above")
                  [] Ev.e = "upow" -> Ok(Ev.r = PowAbove(Ev.n, 1), "least power of two above")
                  [] Ev.e = "ht" /\ Ev.op = "init" -> Ok(Ev.bk = PrimeBelow(Ev.a), "places of a table")
                  [] Ev.e = "ht" /\ Ev.op = "initsize" -> Ok(IF Ev.a = 0 THEN Ev.bk >= 1 ELSE Ev.bk = Ev.a, "places of a table of a given size")
                  [] Ev.e = "uobj" -> Make
                  [] Ev.e = "ufree" -> objs' = objs \ {Ev.k} /\ UNCHANGED seen /\ Adv
                  [] Ev.e = "mem" -> Mem
                  [] Ev.e = "crash" -> Reject("the program crashed or a memory error was reported")
                  [] OTHER -> Ok(TRUE, "")
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
