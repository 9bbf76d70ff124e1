---- MODULE Base64_A ----
EXTENDS Base64, TLC
B == {0, 1, 63, 64, 127, 128, 200, 255}
VARIABLE t
Init == t \in Strings(B, 4)
Spec == Init /\ [][UNCHANGED t]_t
Inv == /\ WellFormed(Enc(t)) /\ Dec(Enc(t)) = t
       /\ Len(Enc(t)) = 4 * ((Len(t) + 2) \div 3) /\ ~Malformed(Enc(t))
====
