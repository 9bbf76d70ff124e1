------------------------------ MODULE Base64 ------------------------------
(* RFC 4648 base64.                                                         *)
EXTENDS Str
Alpha == <<65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,
           97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,
           48,49,50,51,52,53,54,55,56,57,43,47>>
Pad == 61
Group(g) ==      \* 1..3 bytes -> 4 characters
  LET n == Len(g)
      v == g[1] * 65536 + (IF n > 1 THEN g[2] * 256 ELSE 0) + (IF n > 2 THEN g[3] ELSE 0) IN
  <<Alpha[v \div 262144 + 1], Alpha[((v \div 4096) % 64) + 1],
    IF n > 1 THEN Alpha[((v \div 64) % 64) + 1] ELSE Pad,
    IF n > 2 THEN Alpha[(v % 64) + 1] ELSE Pad>>
Enc(b) == FoldLeft(LAMBDA acc, k : acc \o Group(SubSeq(b, 3 * k - 2, IF 3 * k <= Len(b) THEN 3 * k ELSE Len(b))),
                   <<>>, [k \in 1 .. (Len(b) + 2) \div 3 |-> k])
Known == {Alpha[i] : i \in 1 .. 64}
Code(c) == (CHOOSE i \in 1 .. 64 : Alpha[i] = c) - 1
NPad(t) == IF t = <<>> THEN 0 ELSE IF t[Len(t)] # Pad THEN 0 ELSE IF t[Len(t) - 1] # Pad THEN 1 ELSE 2
\* properly formed: groups of four, padding only at the very end
WellFormed(t) == /\ Len(t) % 4 = 0
                 /\ \A i \in 1 .. Len(t) - NPad(t) : t[i] \in Known
Dec(t) ==
  LET ung(k) == LET c(i) == IF t[4 * k - 4 + i] = Pad THEN 0 ELSE Code(t[4 * k - 4 + i])
                    v == c(1) * 262144 + c(2) * 4096 + c(3) * 64 + c(4) IN
                <<v \div 65536, (v \div 256) % 256, v % 256>>
      all == FoldLeft(LAMBDA acc, k : acc \o ung(k), <<>>, [k \in 1 .. Len(t) \div 4 |-> k]) IN
  SubSeq(all, 1, Len(all) - NPad(t))
\* wrong for certain: bad length, or a foreign character before any padding
Malformed(t) == \/ Len(t) % 4 # 0
                \/ LET p == MinOr({i \in 1 .. Len(t) : t[i] = Pad}, Len(t) + 1) IN
                   \/ \E i \in 1 .. p - 1 : t[i] \notin Known
                   \/ (p <= Len(t) /\ ((p % 4) = 1 \/ (p % 4) = 2))
Base64S0(h) == 0
Base64Step(s, e) ==
  LET ok ==
    CASE e.op = "enc" -> e.x = 0 /\ e.r = <<Enc(e.a[1])>>
      \* a pattern of 3k bytes n times and a tail: encoding of the pattern, how often it comes, encoding of the tail, decodes back?
      [] e.op = "rep" -> e.x = 0 /\ e.r = <<Enc(e.a[1]), e.a[2], Enc(e.a[3]), 1>>
      [] e.op = "dec" -> IF WellFormed(e.a[1]) THEN e.x = 0 /\ e.r = <<Dec(e.a[1])>>
                         ELSE IF Malformed(e.a[1]) THEN e.x = 1
                         ELSE TRUE          \* text after padding: unspecified
  IN IF ok THEN {s} ELSE {}
=============================================================================
