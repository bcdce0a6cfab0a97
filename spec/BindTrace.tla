------------------------------ MODULE BindTrace ------------------------------
(* Recorded calls of a module of another language. Every call is served or    *)
(* raises as Bind says, labels, groups and levels are those the C functions   *)
(* give for the data and minimum the object holds (ref), values handed out    *)
(* earlier stay as they were, arguments are left alone, references and        *)
(* blocks balance, and the interpreter survives.                              *)
EXTENDS Bind, TLC, Json
CONSTANTS TraceFile, Chk
TR == ndJsonDeserialize(TraceFile)
VARIABLES tr, pos, x, made, bad
vars == <<tr, pos, x, made, bad>>
Ev == TR[tr].ev[pos]
Who == CHOOSE p \in Chk : TRUE
Init == tr \in 1..Len(TR) /\ pos = 1 /\ x = [h \in {} |-> None] /\ made = 0 /\ bad = ""
Reject(why) == bad' = why /\ UNCHANGED <<tr, pos, x, made>> /\ PrintT(<<"REJECTED", TR[tr].id, pos, 0, Who \o " " \o why>>)
Of(h) == IF h \in DOMAIN x THEN x[h] ELSE None
Set(h, y) == x' = [q \in (DOMAIN x) \cup {h} |-> IF q = h THEN y ELSE x[q]]
Adv == pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Ref(r) == TR[tr].ref[ToString(r[1]) \o "_" \o ToString(r[2])]
Dat(k) == TR[tr].data[ToString(k)]
Op == LET o == Ev IN
      CASE o.op = "run" -> [op |-> "run", k |-> o.k, good |-> o.k > 0 /\ Dat(o.k).good = 1, args |-> o.args = 1]
        [] o.op = "groups" -> [op |-> "groups", b |-> o.b, e |-> o.to, args |-> o.args = 1,
                               n |-> IF Of(o.h).res = <<>> THEN 0 ELSE Dat(Of(o.h).res[1]).n]
        [] o.op \in {"new", "reinit", "rerun"} -> [op |-> o.op, mp |-> o.mp, args |-> o.args = 1]
        [] OTHER -> [op |-> o.op]
Call == LET y == Of(Ev.h) o == Op z == After(y, o) s == Served(y, o) IN
      IF s /\ Ev.out # "ok" THEN Reject("raises without need: " \o Ev.op \o " " \o Ev.exc)
      ELSE IF ~s /\ Ev.out # "err" THEN Reject("serves a call that cannot be served: " \o Ev.op)
      ELSE IF Ev.intact # 1 THEN Reject("changes its argument: " \o Ev.op)
      ELSE IF s /\ Ev.op = "labels" /\ Ev.l # Ref(y.lab).l THEN Reject("shows other labels than the C functions")
      ELSE IF s /\ Ev.op = "groups" /\ {<<g[1], g[2]>> : g \in {Ev.m[i] : i \in DOMAIN Ev.m}} # Groups(Ref(y.res).l, Ev.b, Ev.to) THEN Reject("groups are not those of the labels")
      ELSE IF s /\ Ev.op = "groups" /\ Len(Ev.m) # Cardinality({Ev.m[i][1] : i \in DOMAIN Ev.m}) THEN Reject("a group is listed twice")
      ELSE IF s /\ Ev.op = "hier" /\ Ev.r # Ref(y.res).r THEN Reject("levels are not those of the C functions")
      ELSE IF s /\ Ev.op \in {"run", "rerun"} /\ "n" \in DOMAIN Ev /\ <<Ev.n, Ev.d, Ev.min>> # <<Dat(z.res[1]).n, Dat(z.res[1]).d, z.mp>> THEN Reject("shows other sizes than those of its data")
      ELSE Set(Ev.h, z) /\ made' = made + (IF s /\ Ev.op = "new" THEN 1 ELSE 0) /\ Adv
(* blocks held by the library: none when no object holds results; Java keeps one per object made *)
Idle == \A h \in DOMAIN x : x[h].res = <<>> /\ (TR[tr].lang = "py" => x[h].st = "none")
Mem == IF Ev.bad # 0 THEN Reject("memory released twice or never allocated")
       ELSE IF Ev.over # 0 THEN Reject("memory written outside its bounds or after its release")
       ELSE IF Idle /\ Ev.live > (IF TR[tr].lang = "java" THEN made ELSE 0) THEN Reject("memory never released")
       ELSE UNCHANGED <<x, made>> /\ Adv
Next == /\ bad = ""
        /\ IF pos > Len(TR[tr].ev) THEN UNCHANGED vars
           ELSE CASE Ev.e = "call" -> Call
                  [] Ev.e = "kept" -> IF Ev.same = 1 THEN UNCHANGED <<x, made>> /\ Adv ELSE Reject("a value handed out earlier has changed")
                  [] Ev.e = "grow" -> IF Ev.per <= 8 THEN UNCHANGED <<x, made>> /\ Adv ELSE Reject("repeating the calls keeps on taking memory")
                  [] Ev.e = "mem" -> Mem
                  [] Ev.e = "crash" -> Reject("the interpreter ended")
                  [] OTHER -> Reject("unknown event")
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
==============================================================================
