---- MODULE Match_A ----
(* An automaton reading the text, against the declarative definition.       *)
EXTENDS Match, TLC
W == Strings({1, 2}, 2)
VARIABLES ws, t, found
Init == ws \in W \X W /\ t = <<>> /\ found = {}
Next == /\ Len(t) < 5
        /\ \E c \in {1, 2} :
             /\ t' = Append(t, c)
             /\ found' = found \cup {<<i - 1, Len(t) + 1>> : i \in {k \in Uniq(ws) : Ends(Append(t, c), ws[k])}}
        /\ UNCHANGED ws
Spec == Init /\ [][Next]_<<ws, t, found>>
Inv == /\ found = All(ws, t)
       /\ \A k \in 1 .. 2 : ws[k] # <<>> => ((Find(ws[k], t, 0) = -1) <=> \A p \in 1 .. Len(t) : ~OccursAt(t, ws[k], p))
====
