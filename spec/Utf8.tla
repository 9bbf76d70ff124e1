-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 as Unicode defines it; ill-formed sequences are delimited as: a bad *)
(* first byte alone, or a lead byte with those continuation bytes it calls   *)
(* for that are there.                                                       *)
EXTENDS Str
Rep == 65533
Need(c) == IF c < 128 THEN 1 ELSE IF c < 192 THEN 0 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3
           ELSE IF c < 248 THEN 4 ELSE IF c < 252 THEN 5 ELSE IF c < 254 THEN 6 ELSE 0
IsCont(c) == c >= 128 /\ c < 192
RECURSIVE NCont(_, _, _)
NCont(t, i, n) == IF n = 0 \/ i > Len(t) THEN 0 ELSE IF IsCont(t[i]) THEN 1 + NCont(t, i + 1, n - 1) ELSE 0
LeadBits(c, n) == CASE n = 2 -> c - 192 [] n = 3 -> c - 224 [] n = 4 -> c - 240 [] OTHER -> 0
MinCp(n) == CASE n = 2 -> 128 [] n = 3 -> 2048 [] n = 4 -> 65536 [] OTHER -> 0
\* the character at position i: code point, bytes taken, well-formed?
Dec(t, i) ==
  LET c == t[i] n == Need(c) IN
  IF n = 1 THEN [cp |-> c, n |-> 1, ok |-> TRUE]
  ELSE IF n = 0 THEN [cp |-> Rep, n |-> 1, ok |-> FALSE]
  ELSE LET k == NCont(t, i + 1, n - 1) IN
       IF k < n - 1 \/ n > 4 THEN [cp |-> Rep, n |-> k + 1, ok |-> FALSE]
       ELSE LET v == FoldLeft(LAMBDA a, b : a * 64 + (b - 128), LeadBits(c, n), SubSeq(t, i + 1, i + n - 1))
                good == v >= MinCp(n) /\ v <= 1114111 /\ ~(v >= 55296 /\ v <= 57343)
            IN [cp |-> IF good THEN v ELSE Rep, n |-> n, ok |-> good]
RECURSIVE DecodeFrom(_, _)
DecodeFrom(t, i) == IF i > Len(t) THEN <<>> ELSE LET d == Dec(t, i) IN <<d.cp>> \o DecodeFrom(t, i + d.n)
Decode(t) == DecodeFrom(t, 1)
RECURSIVE ValidFrom(_, _)
ValidFrom(t, i) == IF i > Len(t) THEN TRUE ELSE LET d == Dec(t, i) IN d.ok /\ ValidFrom(t, i + d.n)
Valid(t) == ValidFrom(t, 1)
Enc(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE IF c < 1114112 THEN <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<>>
Encode(u) == FoldLeft(LAMBDA a, c : a \o Enc(c), <<>>, u)
Scalar(c) == c < 1114112 /\ ~(c >= 55296 /\ c <= 57343)
=============================================================================
