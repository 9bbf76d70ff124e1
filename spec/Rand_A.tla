---- MODULE Rand_A ----
(* The specification itself: word arithmetic, and the published first numbers of MT19937. *)
EXTENDS Rand, TLC
H == {0, 1, 255, 256, 32767, 32768, 65535}
VARIABLE t
Init == t \in {<<"w", <<a, b>>, <<c, d>> >> : a, b, c, d \in H} \cup {<<"mt">>}
Spec == Init /\ [][UNCHANGED t]_t
Inv == IF t[1] = "mt"      \* seed 5489: 3499211612, 581869302, 3890346734, 3586334585, 545404204
       THEN MtOut(<<0, 5489>>, 5) = << <<53393, 47964>>, <<8878, 40694>>, <<59361, 64238>>, <<54723, 8057>>, <<8322, 13612>> >>
       ELSE /\ WMul(t[2], t[3]) = WMul(t[3], t[2]) /\ WMul(t[2], <<0, 1>>) = t[2] /\ WMul(t[2], <<0, 128>>) = Shl(t[2], 7)
            /\ \A k \in 1 .. 15 : Shr(Shl(Shr(t[2], k), k), k) = Shr(t[2], k)
            /\ WXor(WXor(t[2], t[3]), t[3]) = t[2]
            /\ \A x \in {RealOf(t[2], t[3])} : x[1] < 2 ^ 27 /\ x[2] < 2 ^ 26
====
