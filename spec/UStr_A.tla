---- MODULE UStr_A ----
(* Properties of the specification itself.                                   *)
EXTENDS UStr, TLC
VARIABLES k, v
Init == \/ k = "u" /\ v \in Strings({0, 31, 65, 127, 128, 2047, 2048, 55295, 57344, 65533, 65535, 65536, 1114111}, 3)
        \/ k = "b" /\ v \in Strings({65, 10, 128, 159, 160, 191, 192, 194, 224, 237, 239, 240, 244, 245, 248, 255}, 4)
        \/ k = "h" /\ v \in Strings({45, 65, 12459, 12495, 12454, 65398, 65418, 65391, 65438, 65439}, 4)
Next == UNCHANGED <<k, v>>
Spec == Init /\ [][Next]_<<k, v>>
Inv == CASE k = "u" -> Decode(Encode(v)) = v /\ Valid(Encode(v)) /\ BadFrom(Encode(v), 1) = <<>> /\ Map(ToBasic, Map(ToZen, v)) = Map(ToBasic, v)
         [] k = "b" -> /\ Valid(Clean(v)) /\ Clean(Clean(v)) = Clean(v)
                       /\ Valid(v) <=> BadFrom(v, 1) = <<>>
                       /\ Valid(v) => Encode(Decode(v)) = v
         [] k = "h" -> \A i \in 1 .. Len(Widen(v, 1, <<>>)) : ~Half(Widen(v, 1, <<>>)[i])
====
