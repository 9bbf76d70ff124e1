-------------------------------- MODULE Sys ---------------------------------
(* System helpers: temporary file streams, file sizes, interrupted calls,     *)
(* error texts, machine figures, positions of parse errors.                   *)
(* State: the files made (bytes), and for each of three streams the file it   *)
(* writes (0: none), its bytes and whether some are not flushed yet.          *)
EXTENDS Str
IsDec(c) == c >= 48 /\ c <= 57
RECURSIVE DecOf(_)
DecOf(n) == IF n < 0 THEN <<45>> \o DecOf(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE DecOf(n \div 10) \o <<48 + (n % 10)>>
\* decimal numbers of any size, as digits, highest first, without leading zeros (zero is <<>>)
RECURSIVE NoZeros(_)
NoZeros(d) == IF d # <<>> /\ d[1] = 0 THEN NoZeros(Tail(d)) ELSE d
RECURSIVE AddRev(_, _, _)
AddRev(x, y, c) == IF x = <<>> /\ y = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                   ELSE LET v == (IF x = <<>> THEN 0 ELSE x[1]) + (IF y = <<>> THEN 0 ELSE y[1]) + c
                        IN <<v % 10>> \o AddRev(IF x = <<>> THEN <<>> ELSE Tail(x), IF y = <<>> THEN <<>> ELSE Tail(y), v \div 10)
AddDec(x, y) == NoZeros(Reverse(AddRev(Reverse(x), Reverse(y), 0)))
Times1000(d) == IF d = <<>> THEN <<>> ELSE d \o <<0, 0, 0>>
\* a line of meminfo: <<name, digits, unit in kB?>>; the figure of a name, 0 when it is not there
Figure(lines, name) == LET p == MinOr({i \in 1 .. Len(lines) : lines[i][1] = name}, 0)
                       IN IF p = 0 THEN <<>> ELSE LET d == NoZeros(lines[p][2]) IN IF lines[p][3] = 1 THEN Times1000(d) ELSE d
MemTotal == 1
MemFree == 2
Cached == 3
Total(lines) == Figure(lines, MemTotal)
Free(lines) == AddDec(Figure(lines, MemFree), Figure(lines, Cached))
\* an expression is evaluated again as long as it fails as interrupted
Runs(script) == MinOr({i \in 1 .. Len(script) : ~(script[i][1] < 0 /\ script[i][2] = 1)}, 0)
Write(b, at, v) == SubSeq(b, 1, at) \o v \o SubSeq(b, at + Len(v) + 1, Len(b))
XXXXXX == <<88, 88, 88, 88, 88, 88>>
Usable(t) == Len(t) >= 6 /\ SubSeq(t, Len(t) - 5, Len(t)) = XXXXXX
SysS0(h) == [files |-> <<>>, on |-> <<0, 0, 0>>, b |-> <<<<>>, <<>>, <<>>>>, dirty |-> <<0, 0, 0>>]
Open(s) == Cardinality({i \in 1 .. 3 : s.on[i] # 0})
\* what is seen after each call: descriptors, and the files none of whose bytes wait in a stream
Seen(s, v) == /\ v[1] = Open(s) /\ Len(v[2]) = Len(s.files)
              /\ \A f \in 1 .. Len(s.files) : (\A k \in 1 .. 3 : s.on[k] = f => s.dirty[k] = 0) => v[2][f] = s.files[f]
Gone(s, k) == LET f == s.on[k] IN [s EXCEPT !.on[k] = 0, !.dirty[k] = 0, !.files = IF f = 0 THEN @ ELSE [@ EXCEPT ![f] = s.b[k]]]
SysStep(s, e) ==
  LET a == e.a r == e.r IN
  IF e.x # 0 THEN {} ELSE
  CASE e.op = "tmp" ->      \* a: stream, end of the template, directory there, descriptors left; r: made, kind of name, mode, seen
         LET k == a[1]
             can == Usable(a[2]) /\ a[3] = 1 /\ a[4] = 1
             t == Gone(s, k)          \* the stream's former file is complete
             n == [t EXCEPT !.files = Append(@, <<>>), !.on[k] = Len(s.files) + 1, !.b[k] = <<>>] IN
         IF can THEN {z \in {n} : r[1] = 1 /\ r[2] = 1 /\ r[3] = 1 /\ Seen(z, r[4])}
                ELSE {z \in {t} : r[1] = 0 /\ Seen(z, r[4])}
    [] e.op = "put" ->      \* at a position of the stream
         LET k == a[1] nb == Write(s.b[k], a[2], a[3])
             z == [s EXCEPT !.b[k] = nb, !.dirty[k] = 1] IN
         {y \in {z} : r[1] = 1 /\ Seen(y, r[2])}
    [] e.op = "flush" -> LET k == a[1] z == [s EXCEPT !.files[s.on[k]] = s.b[k], !.dirty[k] = 0] IN {y \in {z} : r[1] = 1 /\ Seen(y, r[2])}
    [] e.op = "get" ->      \* reading flushes first, as the position is set
         LET k == a[1] z == [s EXCEPT !.files[s.on[k]] = s.b[k], !.dirty[k] = 0] n == Len(s.b[k])
             want == SubSeq(s.b[k], a[2] + 1, IF a[2] + a[3] > n THEN n ELSE a[2] + a[3]) IN
         {y \in {z} : r[1] = want /\ Seen(y, r[2])}
    [] e.op = "del" -> {y \in {Gone(s, a[1])} : Seen(y, r[1])}
    [] e.op = "size" -> IF a[1] = 0 THEN {y \in {s} : r[1] = <<1, 1>>}
                        ELSE {y \in {s} : (\A k \in 1 .. 3 : s.on[k] = a[1] => s.dirty[k] = 0) => r[1] = <<0>> \o DecOf(Len(s.files[a[1]]))}
    [] e.op = "bigsize" -> {y \in {s} : r[1] = a[1]}
    [] e.op = "intr" -> LET n == Runs(a[1]) IN {y \in {s} : r = <<n, a[1][n][1], Bit(a[1][n][1] >= 0), Bit(a[1][n][1] < 0)>>}
    [] e.op = "err" -> {y \in {s} : r = <<1, 1, a[1]>>}
    [] e.op = "stat" -> {y \in {s} : r = <<0, a[1], Total(a[2]), Free(a[2])>>}
    [] e.op = "perr" -> {y \in {s} : r = <<a[1] \o <<58>> \o DecOf(a[2]) \o <<58>> \o DecOf(a[3]) \o <<32>> \o a[4], a[1], a[2], a[3], a[4]>>}
    [] e.op = "end" -> {y \in {s} : r[1] = 0}
=============================================================================
