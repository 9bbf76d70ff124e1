------------------------------- MODULE Code -------------------------------
(* pfi::data::code: a bit stream, least significant bit first in each byte.  *)
(* A value is given as <<high 16 bits, low 16 bits>>, and turned into its    *)
(* list of 32 bits, least significant first.                                 *)
EXTENDS Str
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Bits32(v) == [k \in 1 .. 32 |-> IF k <= 16 THEN (v[2] \div Pow2[k]) % 2 ELSE (v[1] \div Pow2[k - 16]) % 2]
SmallBits(n) == Bits32(<<0, n>>)
Word(b, n) == SubSeq(b, 1, n)
Top(b) == MaxOr({k \in 1 .. Len(b) : b[k] = 1}, 0)       \* length of the value in bits
Zeros(n) == [k \in 1 .. n |-> 0]
Gamma(b) == LET m == Top(b) - 1 IN Zeros(m) \o <<1>> \o Word(b, m)
Delta(b) == LET m == Top(b) - 1 IN Gamma(SmallBits(m + 1)) \o Word(b, m)
ShiftR(b, k) == SubSeq(b, k + 1, Len(b)) \o Zeros(k)
Inc(b) == LET z == MinOr({k \in 1 .. Len(b) : b[k] = 0}, Len(b) + 1) IN
          [k \in 1 .. Len(b) |-> IF k < z THEN 0 ELSE IF k = z THEN 1 ELSE b[k]]
Rice(b, k) == Delta(Inc(ShiftR(b, k))) \o Word(b, k)
AlignPad(n) == Zeros((8 - (n % 8)) % 8)
RECURSIVE Prefix(_)
Prefix(b) == IF Top(b) <= 7 THEN Word(b, 7) \o <<1>> ELSE Word(b, 7) \o <<0>> \o Prefix(ShiftR(b, 7))
CodeOf(op, b, k, at) ==
  CASE op = "word"  -> Word(b, k)
    [] op = "gamma" -> Gamma(b)
    [] op = "delta" -> Delta(b)
    [] op = "rice"  -> Rice(b, k)
    [] op = "byte"  -> AlignPad(at) \o Word(b, 8)
    [] op = "prefix" -> AlignPad(at) \o Prefix(b)
Masked(op, b, k) == IF op = "word" THEN Word(b, k) \o Zeros(32 - k) ELSE IF op = "byte" THEN Word(b, 8) \o Zeros(24) ELSE b
ByteList(b) == LET p == b \o AlignPad(Len(b)) IN
  [i \in 1 .. Len(p) \div 8 |-> FoldLeft(LAMBDA x, k : x + p[8 * (i - 1) + k] * Pow2[k], 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)]
\* bits: what was written; items: <<op, value bits, k, start>>; pos: decoder position
CodeS0(h) == [bits |-> <<>>, items |-> <<>>, pos |-> 0, done |-> FALSE]
CodeStep(s, e) ==
  IF e.x # 0 THEN {} ELSE
  CASE e.op = "put" ->      \* a = <<kind, value, k>>
         LET b == Bits32(e.a[2]) IN
         {[s EXCEPT !.bits = @ \o CodeOf(e.a[1], b, e.a[3], Len(@)),
                    !.items = Append(@, <<e.a[1], Masked(e.a[1], b, e.a[3]), e.a[3], Len(s.bits)>>)]}
    [] e.op = "bytes" -> IF e.r = <<ByteList(s.bits)>> THEN {s} ELSE {}
    [] e.op = "flush" -> IF e.r = <<Len(ByteList(s.bits))>> THEN {s} ELSE {}
    [] e.op = "attach" -> IF (e.r[1] = 0) = (e.a[1] = 1) THEN {s} ELSE {}
    [] e.op = "detach" -> IF e.r = <<0>> THEN {s} ELSE {}
    [] e.op = "again" -> {CodeS0(0)}         \* after a flush the encoder, once attached anew the decoder, starts over
    [] e.op = "seek"  -> {[s EXCEPT !.pos = 8 * e.a[1] + e.a[2]]}
    [] e.op = "get"   ->    \* a = <<kind, k>>, r = <<value>>
         {[s EXCEPT !.pos = IF i = Len(s.items) THEN Len(s.bits) ELSE s.items[i + 1][4]] :
            i \in {j \in 1 .. Len(s.items) : /\ s.items[j][4] = s.pos /\ s.items[j][1] = e.a[1] /\ s.items[j][3] = e.a[2]
                                            /\ e.r = <<e.r[1]>> /\ Bits32(e.r[1]) = s.items[j][2]
                                            /\ (s.items[j][1] = "word" /\ s.items[j][3] = 0) = (e.a[3] = 1)}}
=============================================================================
