--------------------------------- MODULE Uri ---------------------------------
(* RFC 3986: decomposition of a URI reference, validity of its parts, and     *)
(* form percent-coding.                                                       *)
EXTENDS Str
Alpha == (65 .. 90) \cup (97 .. 122)
Dig   == 48 .. 57
Hex   == Dig \cup (65 .. 70) \cup (97 .. 102)
Unres == Alpha \cup Dig \cup {45, 46, 95, 126}
SubD  == {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
Reg   == Unres \cup SubD
PChar == Reg \cup {58, 64}
Pct(t, i) == t[i] = 37 /\ i + 2 <= Len(t) /\ t[i + 1] \in Hex /\ t[i + 2] \in Hex
RECURSIVE Over(_, _, _), Pos(_, _, _)
Over(t, i, S) == IF i > Len(t) THEN TRUE ELSE IF Pct(t, i) THEN Over(t, i + 3, S) ELSE t[i] \in S /\ Over(t, i + 1, S)
Of(t, S) == Over(t, 1, S)
Pos(t, i, c) == IF i > Len(t) THEN 0 ELSE IF t[i] = c THEN i ELSE Pos(t, i + 1, c)
All(t, S) == \A k \in 1 .. Len(t) : t[k] \in S
Before(t, p) == IF p = 0 THEN t ELSE SubSeq(t, 1, p - 1)
After(t, p) == IF p = 0 THEN <<>> ELSE SubSeq(t, p + 1, Len(t))
\* IP literals
H16(g) == Len(g) \in 1 .. 4 /\ All(g, Hex)
Num(g) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, g)
Octet(g) == Len(g) \in 1 .. 3 /\ All(g, Dig) /\ (Len(g) > 1 => g[1] # 48) /\ Num(g) <= 255
V4(t) == LET g == SplitAt(t, <<46>>) IN Len(g) = 4 /\ \A k \in 1 .. 4 : Octet(g[k])
Groups(t) == IF t = <<>> THEN <<>> ELSE SplitAt(t, <<58>>)
\* number of 16-bit groups of a list whose last one may be an IPv4 address; 99 if not well-formed
NG(g, v4ok) == LET n == Len(g) IN
               IF n = 0 THEN 0
               ELSE IF \E k \in 1 .. n - 1 : ~H16(g[k]) THEN 99
               ELSE IF H16(g[n]) THEN n ELSE IF v4ok /\ V4(g[n]) THEN n + 1 ELSE 99
V6(t) == LET d == FindFrom(t, <<58, 58>>, 1) IN
         IF d = 0 THEN NG(Groups(t), TRUE) = 8
         ELSE NG(Groups(SubSeq(t, 1, d - 1)), FALSE) + NG(Groups(SubSeq(t, d + 2, Len(t))), TRUE) <= 7
VFut(t) == LET p == Pos(t, 1, 46) IN
           /\ Len(t) >= 4 /\ t[1] = 118 /\ p >= 3
           /\ All(SubSeq(t, 2, p - 1), Hex) /\ Len(t) > p /\ All(After(t, p), Reg \cup {58})
\* authority
AuthBad == [ok |-> FALSE, user |-> <<>>, host |-> <<>>, port |-> <<>>]
HostPort(u, hp) ==
  IF hp # <<>> /\ hp[1] = 91
  THEN LET e == Pos(hp, 1, 93) IN
       IF e = 0 THEN AuthBad
       ELSE LET lit == SubSeq(hp, 2, e - 1) rest == After(hp, e) IN
            [ok |-> (V6(lit) \/ VFut(lit)) /\ (rest = <<>> \/ (rest[1] = 58 /\ All(SubSeq(rest, 2, Len(rest)), Dig))),
             user |-> u, host |-> SubSeq(hp, 1, e), port |-> SubSeq(rest, 2, Len(rest))]
  ELSE LET c == Pos(hp, 1, 58) IN
       [ok |-> Of(Before(hp, c), Reg) /\ All(After(hp, c), Dig), user |-> u, host |-> Before(hp, c), port |-> After(hp, c)]
Auth(t) == LET a == Pos(t, 1, 64) IN
           IF a = 0 THEN HostPort(<<>>, t)
           ELSE IF Of(SubSeq(t, 1, a - 1), Reg \cup {58}) THEN HostPort(SubSeq(t, 1, a - 1), After(t, a)) ELSE AuthBad
\* [ok, hier (has "scheme://"), parts = <<scheme, userinfo, host, port, path, query, fragment>>]
None == [ok |-> FALSE, hier |-> FALSE, parts |-> <<(<<>>), (<<>>), (<<>>), (<<>>), (<<>>), (<<>>), (<<>>)>>]
Parse(t) ==
  LET h == Pos(t, 1, 35)  nf == Before(t, h) frag == After(t, h)
      q == Pos(nf, 1, 63) base == Before(nf, q) query == After(nf, q)
      sl == Pos(base, 1, 47) co == Pos(base, 1, 58)
      has == co > 1 /\ (sl = 0 \/ co < sl)
      scheme == IF has THEN SubSeq(base, 1, co - 1) ELSE <<>>
      r == IF has THEN After(base, co) ELSE base
      au == Starts(r, <<47, 47>>)
      e == IF au THEN Pos(r, 3, 47) ELSE 0
      auth == IF ~au THEN <<>> ELSE IF e = 0 THEN SubSeq(r, 3, Len(r)) ELSE SubSeq(r, 3, e - 1)
      path == IF ~au THEN r ELSE IF e = 0 THEN <<>> ELSE SubSeq(r, e, Len(r))
      A == Auth(auth)
      seg1 == Before(path, Pos(path, 1, 47))
      good == /\ has => scheme[1] \in Alpha /\ All(scheme, Alpha \cup Dig \cup {43, 45, 46})
              /\ au => A.ok
              /\ Of(path, PChar \cup {47})
              /\ (~has /\ ~au) => Pos(seg1, 1, 58) = 0
              /\ Of(query, PChar \cup {47, 63}) /\ Of(frag, PChar \cup {47, 63})
  IN IF ~good THEN None
     ELSE [ok |-> TRUE, hier |-> has /\ au,
           parts |-> <<scheme, IF au THEN A.user ELSE <<>>, IF au THEN A.host ELSE <<>>, IF au THEN A.port ELSE <<>>, path, query, frag>>]
Authority(p) == (IF p[2] = <<>> THEN <<>> ELSE p[2] \o <<64>>) \o p[3] \o (IF p[4] = <<>> THEN <<>> ELSE <<58>> \o p[4])
Rooted(p) == [k \in 1 .. 7 |-> IF k = 5 /\ p[5] = <<>> THEN <<47>> ELSE p[k]]
\* percent-coding as used in forms
HexV(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
RECURSIVE Dec(_, _), WellCoded(_, _)
Dec(t, i) == IF i > Len(t) THEN <<>>
             ELSE IF Pct(t, i) THEN <<HexV(t[i + 1]) * 16 + HexV(t[i + 2])>> \o Dec(t, i + 3)
             ELSE <<IF t[i] = 43 THEN 32 ELSE t[i]>> \o Dec(t, i + 1)
WellCoded(t, i) == IF i > Len(t) THEN TRUE ELSE IF Pct(t, i) THEN WellCoded(t, i + 3) ELSE t[i] # 37 /\ WellCoded(t, i + 1)
Safe == Unres \cup {43}
IsEncoding(c, s) == Of(c, Safe) /\ Dec(c, 1) = s
\* reference encoder
HexD(v) == IF v < 10 THEN 48 + v ELSE 55 + v
Enc(s) == FoldLeft(LAMBDA a, c : a \o (IF c \in Unres THEN <<c>> ELSE IF c = 32 THEN <<43>> ELSE <<37, HexD(c \div 16), HexD(c % 16)>>), <<>>, s)
UriS0(h) == 0
UriStep(s, e) ==
  LET ok ==
    /\ e.x = 0
    /\ CASE e.op = "parse" -> LET P == Parse(e.a[1]) IN
              /\ SubSeq(e.r, 1, 7) = P.parts
              /\ e.r[8] = Authority(P.parts)
              /\ P.hier => Parse(e.r[9]).parts = Rooted(P.parts)
         [] e.op = "enc" -> IsEncoding(e.r[1], e.a[1])
         [] e.op = "dec" -> WellCoded(e.a[1], 1) => e.r[1] = Dec(e.a[1], 1)
  IN IF ok THEN {s} ELSE {}
=============================================================================
