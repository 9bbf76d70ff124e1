-------------------------------- MODULE UStr --------------------------------
(* Unicode strings: UTF-8 conversion, checking, sanitizing, and the Japanese  *)
(* width conversions.                                                         *)
EXTENDS Utf8
\* the ill-formed pieces of t, in order
RECURSIVE BadFrom(_, _), CleanFrom(_, _)
BadFrom(t, i) == IF i > Len(t) THEN <<>>
                 ELSE LET d == Dec(t, i) IN (IF d.ok THEN <<>> ELSE <<SubSeq(t, i, i + d.n - 1)>>) \o BadFrom(t, i + d.n)
Keepable(c) == c >= 32 /\ c # 65534 /\ c # 65535
CleanFrom(t, i) == IF i > Len(t) THEN <<>>
                   ELSE LET d == Dec(t, i) IN (IF d.ok /\ Keepable(d.cp) THEN SubSeq(t, i, i + d.n - 1) ELSE <<>>) \o CleanFrom(t, i + d.n)
Clean(t) == CleanFrom(t, 1)
First(t) == IF t = <<>> THEN 0 ELSE Dec(t, 1).cp
\* half-width katakana (U+FF60 .. U+FF9F)
HZ == <<65376, 12290, 12300, 12301, 12289, 12539, 12530, 12449, 12451, 12453, 12455, 12457, 12515, 12517, 12519, 12483,
        12540, 12450, 12452, 12454, 12456, 12458, 12459, 12461, 12463, 12465, 12467, 12469, 12471, 12473, 12475, 12477,
        12479, 12481, 12484, 12486, 12488, 12490, 12491, 12492, 12493, 12494, 12495, 12498, 12501, 12504, 12507, 12510,
        12511, 12512, 12513, 12514, 12516, 12518, 12520, 12521, 12522, 12523, 12524, 12525, 12527, 12531, 12441, 12442>>
HaGyo == {12495, 12498, 12501, 12504, 12507}
Voiceable == {c \in 12459 .. 12481 : c % 2 = 1} \cup {12484, 12486, 12488} \cup HaGyo
Voiced(c) == IF c \in Voiceable THEN c + 1 ELSE IF c = 12454 THEN 12532 ELSE IF c = 12530 THEN 12538 ELSE 0
Half(c) == c >= 65376 /\ c <= 65439
RECURSIVE Widen(_, _, _)
Widen(u, i, acc) ==
  IF i > Len(u) THEN acc
  ELSE LET c == u[i] n == Len(acc) last == IF n = 0 THEN -1 ELSE acc[n] repl(v) == SubSeq(acc, 1, n - 1) \o <<v>> IN
       Widen(u, i + 1,
         IF c = 65438 THEN (IF Voiced(last) # 0 THEN repl(Voiced(last)) ELSE Append(acc, 12441))
         ELSE IF c = 65439 THEN (IF last \in HaGyo THEN repl(last + 2) ELSE Append(acc, 12442))
         ELSE IF Half(c) THEN Append(acc, HZ[c - 65376 + 1])
         ELSE IF c = 45 /\ last > 127 THEN Append(acc, 12540)
         ELSE Append(acc, c))
ToBasic(c) == IF c >= 65281 /\ c <= 65374 THEN c - 65248 ELSE IF c = 12288 THEN 32 ELSE c
ToZen(c) == IF c >= 33 /\ c <= 126 THEN c + 65248 ELSE IF c = 32 THEN 12288 ELSE c
Map(F(_), u) == [k \in 1 .. Len(u) |-> F(u[k])]
Classes(c) == <<Bit(c <= 127), Bit(c \in (48 .. 57) \cup (65 .. 90) \cup (97 .. 122)), Bit(c >= 12352 /\ c <= 12447),
                Bit(c >= 12448 /\ c <= 12543), Bit(c >= 19968 /\ c <= 40959), Bit(Half(c))>>
\* first blank-separated word
Word(t) == LET a == LStrip(t) e == MinOr({i \in 1 .. Len(a) : a[i] \in Blank}, Len(a) + 1) IN SubSeq(a, 1, e - 1)
UStrS0(h) == 0
UStrStep(s, e) ==
  LET a == e.a[1]
      ok ==
    /\ e.x = 0
    /\ CASE e.op = "dec" -> e.r[1] = Decode(a) /\ e.r[2] = e.r[1] /\ e.r[3] = BadFrom(a, 1) /\ e.r[4] = e.r[1]
         [] e.op = "strict" -> e.r = <<Bit(Valid(a))>>            \* throwing fallback: no exception iff well-formed
         [] e.op = "first" -> e.r[1] = First(a) /\ e.r[2] = (IF a # <<>> /\ a[1] = 0 THEN 0 ELSE First(a))
         [] e.op = "chk" -> e.r = <<Bit(Valid(a))>>
         [] e.op = "san" -> e.r = <<Clean(a)>>
         [] e.op = "in"  -> e.r = <<Decode(Word(a))>>
         [] e.op = "enc" -> e.r = <<Encode(a), Encode(a), Encode(a)>>
         [] e.op = "wide" -> e.r = <<Widen(a, 1, <<>>)>>
         [] e.op = "lat" -> e.r = <<Map(ToBasic, a), Map(ToZen, a)>>
         [] e.op = "cls" -> e.r = Classes(a) \o <<ToBasic(a), ToZen(a)>>
  IN IF ok THEN {s} ELSE {}
=============================================================================
