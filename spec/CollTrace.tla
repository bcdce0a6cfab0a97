----------------------------- MODULE CollTrace -----------------------------
(* Conformance of recorded operations on the collections with Coll. A trace   *)
(* may use several collections (slots) of different kinds.                     *)
EXTENDS Coll, Json
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, st, bad
vars == <<tr, pos, st, bad>>
On(p) == p \in Chk
Ev == TR[tr].ev[pos]
Init == tr \in 1..Len(TR) /\ pos = 1 /\ bad = "" /\ st = [q \in {} |-> <<>>]
Slot == <<Ev.e, Ev.k>>
Upd(s) == st' = [q \in (DOMAIN st) \cup {Slot} |-> IF q = Slot THEN s ELSE st[q]]
Adv == pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Reject(why) == /\ bad' = why /\ UNCHANGED <<tr, pos, st>> /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, why>>)
Got == IF "got" \in DOMAIN Ev THEN <<Ev.got>> ELSE <<>>
(* the contents are not recorded at every operation on large collections *)
Sees(f, good(_)) == f \in DOMAIN Ev => good(Ev[f])
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Array(id, Do(_,_), pre) ==
    IF Ev.op = "init" THEN IF Sees("x", LAMBDA x : x = <<>>) /\ Ev.sz = 0 THEN Upd(<<>>) /\ Adv ELSE Reject(id \o " a new one is not empty")
    ELSE IF Ev.op = "delete" THEN IF Ev.r = 1 THEN UNCHANGED st /\ Adv ELSE Reject(id \o " delete")
    ELSE IF ~pre THEN Reject("scenario outside the domain")
    ELSE LET outs == Do(st[Slot], Ev)
             ok == {q \in outs : q.r = Ev.r /\ q.got = Got /\ Sees("x", LAMBDA x : x = q.st) /\ Ev.sz = Len(q.st)}
         IN IF ok = {} THEN Reject(id \o " " \o Ev.op) ELSE Upd((CHOOSE q \in ok : TRUE).st) /\ Adv
Link ==
    IF Ev.op = "init" THEN IF Sees("fw", LAMBDA x : x = <<>>) /\ Sees("bw", LAMBDA x : x = <<>>) /\ Ev.sz = 0 THEN Upd(<<>>) /\ Adv ELSE Reject("C18 a new one is not empty")
    ELSE IF Ev.op = "delete" THEN UNCHANGED st /\ Adv
    ELSE LET outs == LinkDo(st[Slot], Ev)
             ok == {q \in outs : q.r = Ev.r /\ q.got = Got /\ Sees("fw", LAMBDA x : x = q.st) /\ Sees("bw", LAMBDA x : x = Rev(q.st)) /\ Ev.sz = Len(q.st)}
         IN IF ok = {} THEN Reject("C18 " \o Ev.op) ELSE Upd((CHOOSE q \in ok : TRUE).st) /\ Adv
(* the release functions: a+1 key function given, a+2 value function given *)
Released(m, o) ==
    LET n == Cardinality(DOMAIN m)
        vs == {m[q] : q \in DOMAIN m}
    IN /\ (IF o.a % 2 = 1 THEN Rng(o.dk) = DOMAIN m /\ Len(o.dk) = n ELSE o.dk = <<>>)
       /\ (IF o.a \div 2 = 1 THEN /\ Len(o.dv) = n /\ Rng(o.dv) \subseteq vs
                                  /\ \A v \in vs : Cardinality({i \in DOMAIN o.dv : o.dv[i] = v}) = Cardinality({q \in DOMAIN m : m[q] = v})
          ELSE o.dv = <<>>)
Hash ==
    IF Ev.op \in {"init", "initsize"} THEN IF Ev.sz = 0 /\ Sees("ks", LAMBDA x : x = <<>>) /\ Ev.em = 1 THEN Upd(NoMap) /\ Adv ELSE Reject("C17 a new one is not empty")
    ELSE LET m == st[Slot]
             q == CHOOSE x \in MapDo(m, Ev) : TRUE
             whole == Ev.op = "destroy"
         IN IF On("C17") /\ ~( /\ q.r = Ev.r /\ q.got = Got
                               /\ whole \/ ( /\ Sees("ks", LAMBDA x : Rng(x) = DOMAIN q.st /\ Len(x) = Cardinality(DOMAIN q.st))
                                             /\ Ev.sz = Cardinality(DOMAIN q.st) /\ Ev.tsz = Ev.sz /\ Ev.em = (IF Ev.sz = 0 THEN 1 ELSE 0)))
            THEN Reject("C17 " \o Ev.op)
            ELSE IF On("C29") /\ ~(IF Ev.op \in {"clear", "destroy"}
                                   THEN /\ Released(m, Ev) /\ Ev.r = 1
                                        /\ whole \/ (Sees("ks", LAMBDA x : x = <<>>) /\ Ev.sz = 0 /\ Ev.em = 1)
                                   ELSE Ev.dk = <<>> /\ Ev.dv = <<>>)
            THEN Reject("C29 " \o Ev.op)
            ELSE IF On("C29") /\ Ev.op = "insert" /\ DOMAIN m = {} /\ (Ev.r # 1 \/ Ev.sz # 1) THEN Reject("C29 insertion into an emptied table")
            ELSE Upd(q.st) /\ Adv
Mem == IF On("C10") /\ ~(Ev.live = 0 /\ Ev.bad = 0 /\ Ev.over = 0) THEN Reject("C10 memory") ELSE UNCHANGED st /\ Adv
Next == /\ bad = ""
        /\ IF pos <= Len(TR[tr].ev)
           THEN CASE Ev.e = "al"  -> Array("C15", ListDo, ListPre(IF Slot \in DOMAIN st THEN st[Slot] ELSE <<>>, Ev))
                  [] Ev.e = "set" -> Array("C16", SetDo, TRUE)
                  [] Ev.e = "ht"  -> Hash
                  [] Ev.e = "ll"  -> Link
                  [] Ev.e = "mem" -> Mem
                  [] Ev.e = "crash" -> Reject("the program crashed")
           ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
