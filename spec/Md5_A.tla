---- MODULE Md5_A ----
(* The specification itself: the test suite of RFC 1321, the padding is a whole number of *)
(* blocks that determines the message, rotation is a permutation of the bits.             *)
EXTENDS Md5, TLC
L(f, n) == [i \in 1 .. n |-> f + i - 1]
Suite == {<<<<>>, "d41d8cd98f00b204e9800998ecf8427e">>, <<L(97, 1), "0cc175b9c0f1b6a831c399e269772661">>, <<L(97, 3), "900150983cd24fb0d6963f7d28e17f72">>,
          <<<<109, 101, 115, 115, 97, 103, 101, 32, 100, 105, 103, 101, 115, 116>>, "f96b697d7cb7938d525a2f31aaf161d0">>,
          <<L(97, 26), "c3fcd3d76192e4007dfb496cca67e13b">>, <<L(65, 26) \o L(97, 26) \o L(48, 10), "d174ab98d277d9f5a5611c2c9f419d9f">>,
          <<[i \in 1 .. 80 |-> IF i % 10 = 0 THEN 48 ELSE 48 + (i % 10)], "57edf4a22be3c955ac49da2e2107b67a">>}
CharOf == [k \in (48 .. 57) \cup (97 .. 102) |-> IF k < 58 THEN SubSeq("0123456789", k - 47, k - 47) ELSE SubSeq("abcdef", k - 96, k - 96)]
VARIABLE t
Init == t \in {<<"suite", x>> : x \in Suite} \cup {<<"pad", n>> : n \in 0 .. 200} \cup {<<"rot", i>> : i \in 0 .. 31} \cup {<<"add", x>> : x \in {<<a, b, c, d>> : a, b, c, d \in {0, 1, 32768, 65535}}}
Spec == Init /\ [][UNCHANGED t]_t
Inv == CASE t[1] = "suite" -> Text(Sum(t[2][1])) = [i \in 1 .. 32 |-> LET c == SubSeq(t[2][2], i, i) IN CHOOSE k \in (48 .. 57) \cup (97 .. 102) : CharOf[k] = c]
         [] t[1] = "pad" -> LET m == L(0, t[2]) p == Padded(m) IN Len(p) % 64 = 0 /\ Len(p) > t[2] + 8 /\ Len(p) <= t[2] + 72 /\ SubSeq(p, 1, t[2]) = m
         [] t[1] = "rot" -> \A s \in 0 .. 31 : LET x == IF t[2] < 16 THEN <<0, Pow2(t[2])>> ELSE <<Pow2(t[2] - 16), 0>> k == (t[2] + s) % 32 IN
                               Rot(x, s) = IF k < 16 THEN <<0, Pow2(k)>> ELSE <<Pow2(k - 16), 0>>
         [] t[1] = "add" -> LET x == <<t[2][1], t[2][2]>> y == <<t[2][3], t[2][4]>> IN WAdd(x, y) = WAdd(y, x) /\ WAdd(WAdd(x, y), WAdd(<<Inv16(y[1]), Inv16(y[2])>>, <<0, 1>>)) = x
====
