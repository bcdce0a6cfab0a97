------------------------------ MODULE OomTrace ------------------------------
(* Recorded operations on collections which may be denied memory (den: how    *)
(* many requests were). An operation has its ordinary outcome of Coll, or,    *)
(* when it was denied memory, reports failure and leaves things as they were. *)
EXTENDS Coll, Json
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, st, bad
vars == <<tr, pos, st, bad>>
Ev == TR[tr].ev[pos]
Init == tr \in 1..Len(TR) /\ pos = 1 /\ bad = "" /\ st = [q \in {} |-> <<>>]
Slot == <<Ev.e, Ev.k>>
There == Slot \in DOMAIN st
Was == st[Slot]
Adv == pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Upd(s) == st' = [q \in (DOMAIN st) \cup {Slot} |-> IF q = Slot THEN s ELSE st[q]] /\ Adv
Gone == st' = [q \in (DOMAIN st) \ {Slot} |-> st[q]] /\ Adv
Reject(why) == bad' = why /\ UNCHANGED <<tr, pos, st>> /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, "C35 " \o why>>)
Got == IF "got" \in DOMAIN Ev THEN <<Ev.got>> ELSE <<>>
Short == "den" \in DOMAIN Ev /\ Ev.den > 0                   \* some memory was denied
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Empty == IF Ev.e = "ht" THEN NoMap ELSE <<>>
(* what is shown is s *)
Shows(s) == IF Ev.e = "ht" THEN Rng(Ev.ks) = DOMAIN s /\ Len(Ev.ks) = Cardinality(DOMAIN s) /\ Ev.sz = Len(Ev.ks) /\ Ev.tsz = Ev.sz /\ Ev.em = (IF Ev.sz = 0 THEN 1 ELSE 0)
            ELSE IF Ev.e = "ll" THEN Ev.fw = s /\ Ev.bw = Rev(s) /\ Ev.sz = Len(s)
            ELSE Ev.x = s /\ Ev.sz = Len(s) /\ Ev.cap = 1
Do == CASE Ev.e = "al" -> (IF Ev.op = "grow" THEN Out(Was, 1, <<>>) ELSE ListDo(Was, Ev)) [] Ev.e = "set" -> SetDo(Was, Ev) [] Ev.e = "ht" -> MapDo(Was, Ev) [] Ev.e = "ll" -> LinkDo(Was, Ev)
(* the results by which failure is reported *)
Fails == CASE Ev.op \in {"append", "insert", "front", "tail", "nfront", "ntail", "destroy"} \/ (Ev.e = "ht" /\ Ev.op = "clear") -> {0}
           [] Ev.op = "grow" -> {-1}
           [] Ev.op \in {"remove", "removeat", "pop", "take"} -> {0, -1}
           [] OTHER -> {}
Handed == Ev.e = "ht" => Ev.dk = <<>> /\ Ev.dv = <<>>
Step == CASE Ev.op \in {"init", "initsize"} ->
              IF Ev.r = 1 THEN (IF Shows(Empty) THEN Upd(Empty) ELSE Reject("a new one is not empty"))
              ELSE IF Short THEN Gone ELSE Reject("no new one although memory was to be had")
          [] ~There -> IF Ev.r = -7 THEN UNCHANGED st /\ Adv ELSE Reject("an operation on nothing")
          [] Ev.r = -7 -> Reject("a collection is lost")
          [] Ev.op = "delete" -> Gone
          [] Ev.op = "destroy" /\ Ev.r = 1 -> Gone
          [] OTHER -> LET ok == {q \in Do : q.r = Ev.r /\ q.got = Got /\ Shows(q.st)} IN
                 IF ok # {} THEN (IF Ev.op = "grow" /\ Ev.more # 1 THEN Reject("has not grown") ELSE Upd((CHOOSE q \in ok : TRUE).st))
                 ELSE IF Short /\ Ev.r \in Fails /\ Got = <<>> /\ Shows(Was) /\ Handed THEN UNCHANGED st /\ Adv
                 ELSE Reject(Ev.e \o " " \o Ev.op \o (IF Short THEN " denied memory" ELSE " after memory was denied"))
Next == /\ bad = ""
        /\ IF pos > Len(TR[tr].ev) THEN UNCHANGED vars
           ELSE CASE Ev.e \in {"al", "set", "ht", "ll"} -> Step
                  [] Ev.e = "mem" -> IF Ev.live = 0 /\ Ev.bad = 0 /\ Ev.over = 0 THEN UNCHANGED st /\ Adv ELSE Reject("memory is lost, released twice or written outside its bounds")
                  [] Ev.e = "crash" -> Reject("the program crashed")
                  [] OTHER -> Reject("unknown event")
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
