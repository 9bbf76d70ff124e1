----------------------------- MODULE StrUtil -----------------------------
(* pfi::data::string utilities and pfi::lang::lexical_cast on text.         *)
EXTENDS Str
StrUtilS0(h) == 0
\* digits of a text after optional blanks and sign; value within 32 bits by choice of cases
RECURSIVE Val(_)
Val(d) == IF d = <<>> THEN 0 ELSE Val(SubSeq(d, 1, Len(d) - 1)) * 10 + (d[Len(d)] - 48)
\* digit strings compared as numbers (no leading zeros)
NumLe(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE a = b \/ (\E k \in 1 .. Len(a) : (\A j \in 1 .. k - 1 : a[j] = b[j]) /\ a[k] < b[k])
RECURSIVE NoZeros(_)
NoZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN NoZeros(Tail(d)) ELSE d
ParseInt(t, lo, hi) ==  \* <<ok, sign(+1/-1), digits>>; lo/hi: magnitude limits as digit strings
  LET u == LStrip(t)
      sg == IF u # <<>> /\ u[1] \in {43, 45} THEN 1 ELSE 0
      neg == sg = 1 /\ u[1] = 45
      v == SubSeq(u, sg + 1, Len(u))
      n == MinOr({i \in 1 .. Len(v) : ~Digit(v[i])}, Len(v) + 1) - 1
      d == NoZeros(SubSeq(v, 1, n)) IN
  IF n = 0 THEN <<FALSE, 1, <<>> >>
  ELSE <<NumLe(d, IF neg THEN lo ELSE hi), IF neg THEN -1 ELSE 1, d>>
IntText(x) == (IF x[1] < 0 /\ x[2] # <<48>> THEN <<45>> ELSE <<>>) \o x[2]
B31 == <<50,49,52,55,52,56,51,54,52,56>>   \* 2147483648
M31 == <<50,49,52,55,52,56,51,54,52,55>>
B63 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
M63 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
Expect(e) ==
  CASE e.op = "split"   -> <<SplitAt(e.a[1], <<e.a[2]>>)>>
    [] e.op = "splits"  -> <<IF e.a[2] = <<>> THEN <<>> ELSE SplitAt(e.a[1], e.a[2])>>
    [] e.op = "strip"   -> <<Strip(e.a[1])>>
    [] e.op = "lstrip"  -> <<LStrip(e.a[1])>>
    [] e.op = "rstrip"  -> <<RStrip(e.a[1])>>
    [] e.op = "join"    -> <<JoinWith(e.a[1], e.a[2])>>
    [] e.op = "starts"  -> <<Bit(Starts(e.a[1], e.a[2]))>>
    [] e.op = "ends"    -> <<Bit(Ends(e.a[1], e.a[2]))>>
    [] e.op = "replace" -> <<ReplaceIn(e.a[1], e.a[2], e.a[3])>>
    \* integer to text and back: text must be the shortest decimal form
    [] e.op = "int2s"   -> e.r
B15 == <<51,50,55,54,56>>
M15 == <<51,50,55,54,55>>
StrUtilStep(s, e) ==
  IF e.op = "same" THEN   \* as it is; as a C string; character by character
    LET z == MinOr({i \in 1 .. Len(e.a[1]) : e.a[1][i] = 0}, Len(e.a[1]) + 1) IN
    IF e.x = 0 /\ e.r = <<e.a[1], SubSeq(e.a[1], 1, z - 1), e.a[1]>> THEN {s} ELSE {}
  ELSE IF e.op \in {"l2int", "l2short"} THEN   \* a long, given by its text, narrowed
    LET p == IF e.op = "l2int" THEN ParseInt(e.a[1], B31, M31) ELSE ParseInt(e.a[1], B15, M15) IN
    IF ~p[1] THEN (IF e.x = 1 THEN {s} ELSE {})
    ELSE IF e.x = 0 /\ e.r = <<IntText(<<p[2], p[3]>>)>> THEN {s} ELSE {}
  ELSE
  IF e.op \in {"s2int", "s2long"} THEN
    LET p == ParseInt(e.a[1], IF e.op = "s2int" THEN B31 ELSE B63, IF e.op = "s2int" THEN M31 ELSE M63) IN
    IF ~p[1] THEN (IF e.x = 1 THEN {s} ELSE {})
    ELSE IF e.x = 0 /\ e.r = <<IntText(<<p[2], p[3]>>)>> THEN {s} ELSE {}
  ELSE IF e.x = 0 /\ e.r = Expect(e) THEN {s} ELSE {}
=============================================================================
