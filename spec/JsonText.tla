------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON text (RFC 4627) and the values it denotes.  Values:                  *)
(*   <<"n">>  <<"b", 0/1>>  <<"i", neg, digits>>  <<"f", neg, digits, exp>>  *)
(*   <<"s", bytes>>  <<"a", items>>  <<"o", members sorted by key>>          *)
(* A float is 0.d1d2..dn * 10^exp with d1, dn # 0.                          *)
(***************************************************************************)
EXTENDS Utf8
None == <<"n">>
Err == [t |-> "err", v |-> None, p |-> 0]      \* not JSON
Unspec == [t |-> "any", v |-> None, p |-> 0]      \* the specification says nothing from here on
Ok(v, p) == [t |-> "ok", v |-> v, p |-> p]
Ws == {32, 9, 10, 13}
RECURSIVE Skip(_, _)
Skip(t, i) == IF i <= Len(t) /\ t[i] \in Ws THEN Skip(t, i + 1) ELSE i
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
\* lexicographic order of byte strings
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLt(Tail(a), Tail(b))
\* a key/value pair put into a sorted member list (replacing an equal key)
Put(ms, k, v) == SelectSeq(ms, LAMBDA m : LexLt(m[1], k)) \o <<(<<k, v>>)>> \o SelectSeq(ms, LAMBDA m : LexLt(k, m[1]))
---------------------------------------------------------------------------
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF i <= Len(t) /\ Digit(t[i]) THEN DigitsEnd(t, i + 1) ELSE i
Vals(s) == [k \in 1 .. Len(s) |-> s[k] - 48]
RECURSIVE DropZ(_)
DropZ(d) == IF d # <<>> /\ d[1] = 0 THEN DropZ(Tail(d)) ELSE d
RECURSIVE ChopZ(_)
ChopZ(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN ChopZ(SubSeq(d, 1, Len(d) - 1)) ELSE d
ToInt(d) == FoldLeft(LAMBDA a, x : a * 10 + x, 0, d)
\* digits, decimal point after k of them
NormF(neg, d, k) == LET a == DropZ(d) b == ChopZ(a) IN
                    IF b = <<>> THEN <<"f", 0, <<>>, 0>> ELSE <<"f", neg, b, k - (Len(d) - Len(a))>>
NormI(neg, d) == LET a == DropZ(d) IN <<"i", IF a = <<>> THEN 0 ELSE neg, a>>
MaxI == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MinI == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
DigLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~LexLt(b, a))
FitsI(v) == DigLe(v[3], IF v[2] = 1 THEN MinI ELSE MaxI)
Number(t, i) ==
  LET neg == IF At(t, i) = 45 THEN 1 ELSE 0
      i1 == i + neg                       e1 == DigitsEnd(t, i1)
      dot == At(t, e1) = 46               e2 == IF dot THEN DigitsEnd(t, e1 + 1) ELSE e1
      ex == At(t, e2) \in {69, 101}       sg == IF ex /\ At(t, e2 + 1) \in {43, 45} THEN 1 ELSE 0
      e3 == IF ex THEN DigitsEnd(t, e2 + 1 + sg) ELSE e2
      ip == Vals(SubSeq(t, i1, e1 - 1))   fp == IF dot THEN Vals(SubSeq(t, e1 + 1, e2 - 1)) ELSE <<>>
      xp == IF ex THEN Vals(SubSeq(t, e2 + 1 + sg, e3 - 1)) ELSE <<>>
      form == /\ ip # <<>> /\ (Len(ip) > 1 => ip[1] # 0)
              /\ (dot => fp # <<>>) /\ (ex => xp # <<>>)
  IN IF ~form THEN Unspec
     ELSE IF ~dot /\ ~ex THEN LET v == NormI(neg, ip) IN IF FitsI(v) THEN Ok(v, e3) ELSE Err
     ELSE IF Len(DropZ(xp)) > 4 THEN Unspec
     ELSE LET x == ToInt(xp) * (IF At(t, e2 + 1) = 45 THEN -1 ELSE 1)
              v == NormF(neg, ip \o fp, Len(ip) + x)
          IN IF v[3] = <<>> THEN (IF x > -300 /\ x < 300 THEN Ok(v, e3) ELSE Unspec)
             ELSE IF v[4] > 310 THEN Err
             ELSE IF v[4] > 308 \/ v[4] < -306 \/ Len(v[3]) > 15 THEN Unspec ELSE Ok(v, e3)
---------------------------------------------------------------------------
HexV(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
Hex4(t, i) == IF i + 3 > Len(t) \/ \E k \in 0 .. 3 : HexV(t[i + k]) < 0 THEN -1
              ELSE ((HexV(t[i]) * 16 + HexV(t[i + 1])) * 16 + HexV(t[i + 2])) * 16 + HexV(t[i + 3])
Simple(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12
               [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
RECURSIVE StrFrom(_, _, _)
StrFrom(t, i, acc) ==      \* i: after the opening quote or in the middle
  IF i > Len(t) THEN Err
  ELSE IF t[i] = 34 THEN Ok(<<"s", acc>>, i + 1)
  ELSE IF t[i] = 92
       THEN IF At(t, i + 1) = 117
            THEN LET h == Hex4(t, i + 2) IN
                 IF h < 0 \/ (h >= 56320 /\ h <= 57343) THEN Err
                 ELSE IF h >= 55296 /\ h <= 56319
                      THEN LET lo == IF At(t, i + 6) = 92 /\ At(t, i + 7) = 117 THEN Hex4(t, i + 8) ELSE -1 IN
                           IF lo < 56320 \/ lo > 57343 THEN Err
                           ELSE StrFrom(t, i + 12, acc \o Enc(65536 + (h - 55296) * 1024 + (lo - 56320)))
                      ELSE StrFrom(t, i + 6, acc \o Enc(h))
            ELSE LET c == IF i + 1 <= Len(t) THEN Simple(t[i + 1]) ELSE -1 IN
                 IF c < 0 THEN Err ELSE StrFrom(t, i + 2, Append(acc, c))
  ELSE IF t[i] < 32 THEN Err
  ELSE LET d == Dec(t, i) IN
       IF ~d.ok THEN Err ELSE StrFrom(t, i + d.n, acc \o SubSeq(t, i, i + d.n - 1))
Lit(t, i, w, v) == IF OccursAt(t, w, i) THEN Ok(v, i + Len(w)) ELSE Err
RECURSIVE Val(_, _), Items(_, _, _), Membs(_, _, _)
\* a value; i may be at whitespace
Val(t, i0) ==
  LET i == Skip(t, i0) c == At(t, i) IN
  CASE c = 123 -> IF At(t, Skip(t, i + 1)) = 125 THEN Ok(<<"o", <<>>>>, Skip(t, i + 1) + 1) ELSE Membs(t, i + 1, <<>>)
    [] c = 91  -> IF At(t, Skip(t, i + 1)) = 93 THEN Ok(<<"a", <<>>>>, Skip(t, i + 1) + 1) ELSE Items(t, i + 1, <<>>)
    [] c = 34  -> StrFrom(t, i + 1, <<>>)
    [] c = 116 -> Lit(t, i, <<116, 114, 117, 101>>, <<"b", 1>>)
    [] c = 102 -> Lit(t, i, <<102, 97, 108, 115, 101>>, <<"b", 0>>)
    [] c = 110 -> Lit(t, i, <<110, 117, 108, 108>>, None)
    [] c = 45 \/ (c >= 48 /\ c <= 57) -> Number(t, i)
    [] c \in {11, 12} -> Unspec
    [] OTHER -> Err
Items(t, i, acc) ==
  LET v == Val(t, i) IN
  IF v.t # "ok" THEN v
  ELSE LET p == Skip(t, v.p) c == At(t, p) a == Append(acc, v.v) IN
       IF c = 44 THEN Items(t, p + 1, a) ELSE IF c = 93 THEN Ok(<<"a", a>>, p + 1)
       ELSE IF c \in {11, 12} THEN Unspec ELSE Err
Membs(t, i, acc) ==
  LET q == Skip(t, i) IN
  IF At(t, q) \in {11, 12} THEN Unspec ELSE IF At(t, q) # 34 THEN Err
  ELSE LET k == StrFrom(t, q + 1, <<>>) IN
       IF k.t # "ok" THEN k
       ELSE LET co == Skip(t, k.p) IN
            IF At(t, co) \in {11, 12} THEN Unspec ELSE IF At(t, co) # 58 THEN Err
            ELSE LET v == Val(t, co + 1) IN
                 IF v.t # "ok" THEN v
                 ELSE LET p == Skip(t, v.p) c == At(t, p) a == Put(acc, k.v[2], v.v) IN
                      IF c = 44 THEN Membs(t, p + 1, a) ELSE IF c = 125 THEN Ok(<<"o", a>>, p + 1)
                      ELSE IF c \in {11, 12} THEN Unspec ELSE Err
\* the documents of a stream, one after the other; each is "ok", and the last entry is "end", "err" or "any"
RECURSIVE Docs(_, _)
Docs(t, i) == IF Skip(t, i) > Len(t) THEN <<[t |-> "end", v |-> None, p |-> 0]>>
              ELSE LET v == Val(t, i) IN
                   IF v.t = "ok" THEN <<v>> \o Docs(t, v.p) ELSE <<v>>
---------------------------------------------------------------------------
\* what printing keeps of a value: floats to 12 significant digits; without type distinction of numbers
Round(d, n) ==   \* digits rounded to n: <<digits, carry>>
  IF Len(d) <= n THEN <<d, 0>>
  ELSE LET h == SubSeq(d, 1, n) IN
       IF d[n + 1] < 5 THEN <<h, 0>>
       ELSE LET m == MaxOr({k \in 1 .. n : h[k] # 9}, 0) IN
            IF m = 0 THEN <<(<<1>>), 1>> ELSE <<[k \in 1 .. m |-> IF k = m THEN h[k] + 1 ELSE h[k]], 0>>
FKey(v, prec) == IF v[1] = "i" THEN NormF(v[2], v[3], Len(v[3]))
                 ELSE IF v[3] = <<>> THEN v
                 ELSE LET r == Round(v[3], prec) IN <<"f", v[2], ChopZ(r[1]), v[4] + r[2]>>
RECURSIVE Same(_, _, _)     \* equal up to numeric type and precision of floats
Same(a, b, prec) ==
  IF a[1] \in {"i", "f"} /\ b[1] \in {"i", "f"} /\ ~(a[1] = "i" /\ b[1] = "i") THEN FKey(a, prec) = FKey(b, prec)
  ELSE IF a[1] # b[1] THEN FALSE
  ELSE IF a[1] = "a" THEN Len(a[2]) = Len(b[2]) /\ \A k \in 1 .. Len(a[2]) : Same(a[2][k], b[2][k], prec)
  ELSE IF a[1] = "o" THEN Len(a[2]) = Len(b[2]) /\ \A k \in 1 .. Len(a[2]) : a[2][k][1] = b[2][k][1] /\ Same(a[2][k][2], b[2][k][2], prec)
  ELSE a = b
RECURSIVE Clean(_)          \* ill-formed UTF-8 in strings and keys replaced
Clean(v) == CASE v[1] = "s" -> <<"s", Encode(Decode(v[2]))>>
              [] v[1] = "a" -> <<"a", [k \in 1 .. Len(v[2]) |-> Clean(v[2][k])]>>
              [] v[1] = "o" -> <<"o", [k \in 1 .. Len(v[2]) |-> <<Encode(Decode(v[2][k][1])), Clean(v[2][k][2])>>]>>
              [] OTHER -> v
RECURSIVE AllValid(_)
AllValid(v) == CASE v[1] = "s" -> Valid(v[2])
                 [] v[1] = "a" -> \A k \in 1 .. Len(v[2]) : AllValid(v[2][k])
                 [] v[1] = "o" -> \A k \in 1 .. Len(v[2]) : Valid(v[2][k][1]) /\ AllValid(v[2][k][2])
                 [] OTHER -> TRUE
\* text r (printed with escapes or without) denotes v
Prints(r, v, escape) ==
  LET d == Docs(r, 1) w == IF escape THEN Clean(v) ELSE v IN
  /\ escape => \A k \in 1 .. Len(r) : r[k] < 128
  /\ Len(d) = 2 /\ d[1].t = "ok" /\ d[2].t = "end" /\ Same(w, d[1].v, 12)
JsonTextS0(h) == 0
\* results of reading documents: values ["v", tree], then ["end"], ["err"]
ReadOk(d, r) ==
  \A k \in 1 .. Len(d) :
    \/ \E j \in 1 .. k : d[j].t = "any"
    \/ /\ k <= Len(r)
       /\ CASE d[k].t = "ok"  -> r[k][1] = "v" /\ r[k][2] = d[k].v
            [] d[k].t = "end" -> r[k][1] = "end" /\ Len(r) = k
            [] d[k].t = "err" -> r[k][1] \in {"err", "end"} /\ Len(r) = k
JsonTextStep(s, e) ==
  LET ok ==
    CASE e.op = "parse"  -> e.x = 0 /\ ReadOk(Docs(e.a[1], 1), e.r)
      [] e.op = "print"  -> /\ e.x = 0 /\ Prints(e.r[1], e.a[1], TRUE) /\ Prints(e.r[2], e.a[1], TRUE)
                            /\ (AllValid(e.a[1]) => Prints(e.r[3], e.a[1], FALSE) /\ Prints(e.r[4], e.a[1], FALSE))
      \* printed and parsed back by the library itself
      [] e.op = "round"  -> e.x = 0 /\ \A k \in 1 .. Len(e.r) : Same(e.a[1], e.r[k], 12)
  IN IF ok THEN {s} ELSE {}
=============================================================================
