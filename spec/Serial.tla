------------------------------- MODULE Serial -------------------------------
(***************************************************************************)
(* The binary archive format.  Types:                                       *)
(*   <<"num", n>>   n-byte integer or IEEE number, little endian; a value is  *)
(*                  its n base-256 digits, lowest first                      *)
(*   <<"ldbl">>     80-bit extended IEEE number (ten digits) in 16 bytes      *)
(*   <<"str", n>>   text of n-byte characters: 32-bit count, characters      *)
(*   <<"seq", T>>   vector, list, deque, set, map: 32-bit count, items       *)
(*   <<"bag", T>>   unordered containers: the same, in some order             *)
(*   <<"tup", Ts>>  pairs, arrays and classes: the members, nothing else      *)
(*   <<"stream">>   bytes, 255 doubled, ended by 255 0                        *)
(***************************************************************************)
EXTENDS Str
U32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
RECURSIVE Enc(_, _)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Enc(T, v) ==
  CASE T[1] = "num" -> v
    [] T[1] = "ldbl" -> v \o <<0, 0, 0, 0, 0, 0>>
    [] T[1] = "str" -> U32(Len(v)) \o Flat([k \in 1 .. Len(v) |-> v[k]])
    [] T[1] \in {"seq", "bag"} -> U32(Len(v)) \o Flat([k \in 1 .. Len(v) |-> Enc(T[2], v[k])])
    [] T[1] = "tup" -> Flat([k \in 1 .. Len(v) |-> Enc(T[2][k], v[k])])
    [] T[1] = "stream" -> Flat([k \in 1 .. Len(v) |-> IF v[k] = 255 THEN <<255, 255>> ELSE <<v[k]>>]) \o <<255, 0>>
\* reading at position p: [ok, value, next position]
Fail == [ok |-> FALSE, v |-> <<>>, p |-> 0]
Got(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
RECURSIVE Dec(_, _, _), DecN(_, _, _, _), DecT(_, _, _), DecS(_, _, _)
DecN(T, n, b, p) ==      \* n items of type T
  IF n = 0 THEN Got(<<>>, p)
  ELSE LET x == Dec(T, b, p) IN
       IF ~x.ok THEN Fail ELSE LET y == DecN(T, n - 1, b, x.p) IN IF ~y.ok THEN Fail ELSE Got(<<x.v>> \o y.v, y.p)
DecT(Ts, b, p) ==
  IF Ts = <<>> THEN Got(<<>>, p)
  ELSE LET x == Dec(Ts[1], b, p) IN
       IF ~x.ok THEN Fail ELSE LET y == DecT(Tail(Ts), b, x.p) IN IF ~y.ok THEN Fail ELSE Got(<<x.v>> \o y.v, y.p)
DecS(b, p, acc) ==
  IF p > Len(b) THEN Fail
  ELSE IF b[p] # 255 THEN DecS(b, p + 1, Append(acc, b[p]))
  ELSE IF p + 1 > Len(b) THEN Fail
  ELSE IF b[p + 1] = 0 THEN Got(acc, p + 2) ELSE DecS(b, p + 2, Append(acc, 255))
Count(b, p) == b[p] + 256 * b[p + 1] + 65536 * b[p + 2] + 16777216 * b[p + 3]
Dec(T, b, p) ==
  CASE T[1] = "num" -> IF p + T[2] - 1 > Len(b) THEN Fail ELSE Got(SubSeq(b, p, p + T[2] - 1), p + T[2])
    [] T[1] = "ldbl" -> IF p + 15 > Len(b) THEN Fail ELSE Got(SubSeq(b, p, p + 9), p + 16)
    [] T[1] \in {"str", "seq", "bag"} ->
         IF p + 3 > Len(b) THEN Fail
         ELSE IF b[p + 3] > 0 THEN Fail   \* a count of 2^24 or more, with far less input
         ELSE DecN(IF T[1] = "str" THEN <<"num", T[2]>> ELSE T[2], Count(b, p), b, p + 4)
    [] T[1] = "tup" -> DecT(T[2], b, p)
    [] T[1] = "stream" -> DecS(b, p, <<>>)
\* equal values of type T (order of unordered containers does not count)
RECURSIVE Eq(_, _, _)
Eq(T, u, v) ==
  CASE T[1] = "seq" -> Len(u) = Len(v) /\ \A k \in 1 .. Len(u) : Eq(T[2], u[k], v[k])
    [] T[1] = "bag" -> /\ Len(u) = Len(v)
                       /\ \A k \in 1 .. Len(u) : \E j \in 1 .. Len(v) : Eq(T[2], u[k], v[j])
                       /\ \A k \in 1 .. Len(u) : \E j \in 1 .. Len(v) : Eq(T[2], v[k], u[j])
    [] T[1] = "tup" -> \A k \in 1 .. Len(T[2]) : Eq(T[2][k], u[k], v[k])
    [] OTHER -> u = v
RECURSIVE HasBag(_)
HasBag(T) == CASE T[1] \in {"bag", "ldbl"} -> TRUE [] T[1] = "seq" -> HasBag(T[2]) [] T[1] = "tup" -> \E k \in 1 .. Len(T[2]) : HasBag(T[2][k]) [] OTHER -> FALSE
\* r: one [ok, value, bytes consumed so far] per value; after a failure nothing reads
RECURSIVE ReadOk(_, _, _, _)
ReadOk(Ts, b, p, r) ==
  IF Ts = <<>> THEN r = <<>>
  ELSE r # <<>> /\ LET x == Dec(Ts[1], b, p) IN
       IF x.ok THEN /\ r[1][1] = 1 /\ Eq(Ts[1], x.v, r[1][2]) /\ r[1][3] = x.p - 1
                    /\ ReadOk(Tail(Ts), b, x.p, Tail(r))
       ELSE \A k \in 1 .. Len(r) : r[k][1] = 0
SerialS0(h) == 0
SerialStep(s, e) ==
  LET ok ==
    CASE e.op = "write" -> \* types, values -> bytes
           LET d == Dec(<<"tup", e.a[1]>>, e.r[1], 1) IN
           /\ e.x = 0 /\ d.ok /\ d.p = Len(e.r[1]) + 1 /\ Eq(<<"tup", e.a[1]>>, d.v, e.a[2])
           /\ (~HasBag(<<"tup", e.a[1]>>) => e.r[1] = Enc(<<"tup", e.a[1]>>, e.a[2]))
      [] e.op = "read" -> e.x = 0 /\ ReadOk(e.a[1], e.a[2], 1, e.r)
  IN IF ok THEN {s} ELSE {}
=============================================================================
