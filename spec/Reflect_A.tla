---- MODULE Reflect_A ----
(* Building descriptions: balanced use gives balanced text, nothing entered is lost, what was finished stays. *)
EXTENDS Reflect, TLC
CONSTANTS Depth, Steps
VARIABLES s, n, b          \* the stack, steps taken, leaves and classes begun so far
Init == s = <<New>> /\ n = 0 /\ b = 0
Leaf == {<<1>>, <<2, 0, 8>>, <<4>>}
Nm == {<<>>, <<97>>}
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ Len(s) < Depth /\ s' = Enter(s) /\ b' = b + 1
           \/ Len(s) > 1 /\ s' = Leave(s) /\ b' = b
           \/ \E x \in Nm : s' = Rename(s, x) /\ b' = b
           \/ \E x \in Nm, t \in Leaf : s' = AddM(s, x, t) /\ b' = b + 1
Spec == Init /\ [][Next]_<<s, n, b>>
RECURSIVE Sum(_, _)
Sum(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + Sum(q, i + 1)
Count(c) == Len(Nodes(Class(c))) - 1
Kept == Sum([i \in 1 .. Len(s) |-> Count(s[i])], 1) + (Len(s) - 1) = b
RECURSIVE Bal(_, _, _)
Bal(t, i, d) == IF d < 0 THEN FALSE ELSE IF i > Len(t) THEN d = 0
                ELSE Bal(t, i + 1, d + (IF t[i] = 123 THEN 1 ELSE IF t[i] = 125 THEN -1 ELSE 0))
Balanced == \A i \in 1 .. Len(s) : Bal(Show(Class(s[i])), 1, 0)
Stay == [][\A i \in 1 .. Len(s) - 1 : i <= Len(s') => Len(s'[i].ms) >= Len(s[i].ms) /\ SubSeq(s'[i].ms, 1, Len(s[i].ms)) = s[i].ms]_<<s, n, b>>
====
