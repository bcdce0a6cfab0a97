-------------------------------- MODULE Log --------------------------------
(* What a log holds: every message once, whole and in the order in which its  *)
(* thread wrote it, with the time and the type in front of it, or as it is    *)
(* when it has no type. Characters are numbers.                                *)
EXTENDS Integers, Sequences
LBR == 91   RBR == 93   SP == 32   COLON == 58   DASH == 45
Digit(c) == c \in 48..57
StampLen == 21                                  \* [2019-10-13 12:00:00]
IsStamp(s) == /\ Len(s) = StampLen /\ s[1] = LBR /\ s[21] = RBR /\ s[12] = SP
              /\ \A i \in {6, 9} : s[i] = DASH
              /\ \A i \in {15, 18} : s[i] = COLON
              /\ \A i \in (1..21) \ {1, 6, 9, 12, 15, 18, 21} : Digit(s[i])
NoLater(a, b) == a = b \/ \E i \in 1..StampLen : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
Types == <<<<70, 65, 84, 65, 76>>, <<69, 82, 82, 79, 82>>, <<73, 78, 70, 79>>, <<87, 65, 82, 78>>>>     \* FATAL ERROR INFO WARN
Plain == 5                                      \* the type of a message written as it is
(* what follows the time *)
Body(m) == IF m.ty = Plain THEN m.txt ELSE <<SP>> \o Types[m.ty] \o <<COLON, SP>> \o m.txt
Size(m) == Len(Body(m)) + (IF m.ty = Plain THEN 0 ELSE StampLen)
(* message m, written between the times a and b, lies at place p of x *)
At(x, p, m, a, b) ==
    /\ p + Size(m) - 1 <= Len(x)
    /\ IF m.ty = Plain THEN SubSeq(x, p, p + Size(m) - 1) = Body(m)
       ELSE LET s == SubSeq(x, p, p + StampLen - 1)
            IN IsStamp(s) /\ NoLater(a, s) /\ NoLater(s, b) /\ SubSeq(x, p + StampLen, p + Size(m) - 1) = Body(m)
=============================================================================
