---- MODULE Serial_A ----
(* Every small value of every small type: decoding inverts encoding, whatever  *)
(* follows; every proper prefix fails (the format is self-delimiting).        *)
EXTENDS Serial, TLC
B == {0, 1, 255}
N1 == <<"num", 1>>
Types == {N1, <<"num", 2>>, <<"str", 1>>, <<"seq", N1>>, <<"seq", <<"str", 1>>>>, <<"tup", <<N1, <<"str", 1>>>>>>, <<"seq", <<"tup", <<N1, N1>>>>>>, <<"stream">>, <<"tup", <<(<<"stream">>), N1>>>>}
RECURSIVE Vals(_)
Vals(T) == CASE T[1] = "num" -> [1 .. T[2] -> B]
             [] T[1] = "str" -> Strings({<<b>> : b \in B}, 2)
             [] T[1] = "seq" -> Strings(Vals(T[2]), 2)
             [] T[1] = "stream" -> Strings(B, 3)
             [] T[1] = "tup" -> {<<x, y>> : x \in Vals(T[2][1]), y \in Vals(T[2][2])}
VARIABLES t, v, tail
Init == t \in Types /\ v \in Vals(t) /\ tail = <<>>
Next == Len(tail) < 2 /\ \E b \in B : tail' = Append(tail, b) /\ UNCHANGED <<t, v>>
Spec == Init /\ [][Next]_<<t, v, tail>>
Bytes == Enc(t, v)
Inv == /\ LET d == Dec(t, Bytes \o tail, 1) IN d.ok /\ d.v = v /\ d.p = Len(Bytes) + 1
       /\ tail = <<>> => \A k \in 0 .. Len(Bytes) - 1 : ~Dec(t, SubSeq(Bytes, 1, k), 1).ok
====
