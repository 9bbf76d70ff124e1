---- MODULE Code_A ----
(* Design check: the codes are uniquely decodable in any mixture; the decoder *)
(* below works from the bits alone.                                           *)
EXTENDS Code, TLC
CONSTANTS MaxItems
Kinds == {<<"word", 3>>, <<"word", 9>>, <<"gamma", 0>>, <<"delta", 0>>, <<"rice", 2>>, <<"byte", 0>>, <<"prefix", 0>>}
Vals == {<<0, 1>>, <<0, 5>>, <<0, 200>>, <<1, 3>>, <<65535, 65534>>}
Zs(b) == MinOr({k \in 1 .. Len(b) : b[k] = 1}, Len(b) + 1) - 1
Pad32(b) == b \o Zeros(32 - Len(b))
NumOf(b) == FoldLeft(LAMBDA x, k : x + (IF k <= 14 THEN b[k] * Pow2[k] ELSE 0), 0, [k \in 1 .. Len(b) |-> k])
\* each returns <<value bits (32), bits consumed>>
DGamma(b) == LET z == Zs(b) IN <<Pad32(SubSeq(b, z + 2, 2 * z + 1) \o <<1>>), 2 * z + 1>>
DDelta(b) == LET g == DGamma(b) n == NumOf(g[1]) - 1 IN <<Pad32(SubSeq(b, g[2] + 1, g[2] + n) \o <<1>>), g[2] + n>>
Dec1(b) == LET o == MinOr({k \in 1 .. Len(b) : b[k] = 1}, 0) IN [k \in 1 .. Len(b) |-> IF k < o THEN 1 ELSE IF k = o THEN 0 ELSE b[k]]
DRice(b, k) == LET d == DDelta(b) hi == Dec1(d[1]) IN <<SubSeq(SubSeq(b, d[2] + 1, d[2] + k) \o hi, 1, 32), d[2] + k>>
RECURSIVE DPrefix(_)
DPrefix(b) == IF b[8] = 1 THEN <<SubSeq(b, 1, 7), 8>> ELSE LET r == DPrefix(SubSeq(b, 9, Len(b))) IN <<SubSeq(b, 1, 7) \o r[1], 8 + r[2]>>
Decode(k, b, at) ==
  LET al == Len(AlignPad(at)) c == SubSeq(b, al + 1, Len(b)) IN
  CASE k[1] = "word" -> <<Pad32(SubSeq(b, 1, k[2])), k[2]>>
    [] k[1] = "gamma" -> DGamma(b) [] k[1] = "delta" -> DDelta(b) [] k[1] = "rice" -> DRice(b, k[2])
    [] k[1] = "byte" -> <<Pad32(SubSeq(c, 1, 8)), al + 8>>
    [] k[1] = "prefix" -> LET r == DPrefix(c) IN <<SubSeq(r[1] \o Zeros(32), 1, 32), al + r[2]>>
VARIABLES bits, items
Init == bits = <<>> /\ items = <<>>
Next == /\ Len(items) < MaxItems
        /\ \E k \in Kinds, v \in Vals :
             LET b == Bits32(v) IN
             /\ bits' = bits \o CodeOf(k[1], b, k[2], Len(bits))
             /\ items' = Append(items, <<k, Masked(k[1], b, k[2])>>)
Spec == Init /\ [][Next]_<<bits, items>>
RECURSIVE Good(_, _)
Good(i, at) == IF i > Len(items) THEN at = Len(bits)
               ELSE LET d == Decode(items[i][1], SubSeq(bits, at + 1, Len(bits)), at) IN
                    d[1] = items[i][2] /\ Good(i + 1, at + d[2])
Inv == Good(1, 0)
====
