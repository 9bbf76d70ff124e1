-------------------------------- MODULE Http --------------------------------
(***************************************************************************)
(* HTTP/1.x messages as bytes: start line, header fields, body framing      *)
(* (chunked, Content-Length, until close).  Parse gives what a receiver must *)
(* see; sending is right when parsing what was sent gives the message back.  *)
(***************************************************************************)
EXTENDS Str, TLC
LineMax == 4096         \* longer lines may be refused

RECURSIVE NextLF(_, _), RTrimAt(_, _), LTrimAt(_, _)
\* position of the first LF at or after i, 0: none
NextLF(b, i) == IF i > Len(b) THEN 0
                ELSE LET e == IF i + 63 > Len(b) THEN Len(b) ELSE i + 63
                         S == {j \in i .. e : b[j] = 10}
                     IN IF S = {} THEN NextLF(b, e + 1) ELSE MinOr(S, 0)
RTrimAt(t, k) == IF k > 0 /\ t[k] \in Blank THEN RTrimAt(t, k - 1) ELSE k
LTrimAt(t, k) == IF k <= Len(t) /\ t[k] \in Blank THEN LTrimAt(t, k + 1) ELSE k
RT(t) == SubSeq(t, 1, RTrimAt(t, Len(t)))
LT(t) == SubSeq(t, LTrimAt(t, 1), Len(t))
Trim(t) == LT(RT(t))
Low(t) == [k \in 1 .. Len(t) |-> Lower(t[k])]
CiEq(a, b) == Len(a) = Len(b) /\ Low(a) = Low(b)
\* runs of blanks as one space
Collapse(t) == FoldLeft(LAMBDA acc, c : IF c \in Blank THEN (IF acc # <<>> /\ acc[Len(acc)] = 32 THEN acc ELSE Append(acc, 32)) ELSE Append(acc, c), <<>>, t)

\* a line at i: [ok, t, nxt, long]
Line(b, i) ==
  LET p == NextLF(b, i) IN
  IF p = 0 THEN [ok |-> FALSE, t |-> <<>>, nxt |-> i, long |-> FALSE]
  ELSE [ok |-> TRUE, nxt |-> p + 1, long |-> p - i + 1 > LineMax,
        t |-> SubSeq(b, i, IF p > i /\ b[p - 1] = 13 THEN p - 2 ELSE p - 1)]

Sep == {40, 41, 60, 62, 64, 44, 59, 58, 92, 34, 47, 91, 93, 63, 61, 123, 125, 32, 9}
TokC == (33 .. 126) \ Sep
Tok(t) == t # <<>> /\ \A k \in DOMAIN t : t[k] \in TokC
\* position of a byte in a short string, 0: none
At(t, c) == MinOr({k \in 1 .. Len(t) : t[k] = c}, 0)
RECURSIVE ColonAt(_, _)
ColonAt(t, k) == IF k > Len(t) THEN 0 ELSE IF t[k] = 58 THEN k ELSE IF t[k] \in TokC THEN ColonAt(t, k + 1) ELSE 0

\* header block at i: st "ok", "cut" (input ends first), "bad" (not a header line), "long", or "lflost" (all but the last byte)
RECURSIVE HeadAt(_, _, _)
HeadAt(b, i, hs) ==
  LET l == Line(b, i) n == Len(hs) IN
  IF ~l.ok THEN [st |-> IF i = Len(b) /\ b[i] = 13 THEN "lflost" ELSE "cut", hs |-> hs, nxt |-> i]
  ELSE IF l.long THEN [st |-> "long", hs |-> hs, nxt |-> i]
  ELSE IF l.t = <<>> THEN [st |-> "ok", hs |-> hs, nxt |-> l.nxt]
  ELSE IF l.t[1] \in Blank THEN
    IF n = 0 \/ l.t[1] \notin {32, 9} THEN [st |-> "bad", hs |-> hs, nxt |-> i]
    ELSE HeadAt(b, l.nxt, [hs EXCEPT ![n] = [@ EXCEPT !.v = @ \o l.t, !.fold = TRUE]])
  ELSE LET c == ColonAt(l.t, 1) IN
       IF c <= 1 THEN [st |-> "bad", hs |-> hs, nxt |-> i]
       ELSE HeadAt(b, l.nxt, Append(hs, [n |-> SubSeq(l.t, 1, c - 1), v |-> SubSeq(l.t, c + 1, Len(l.t)), fold |-> FALSE]))
\* the same, once a bad or long line has been met: is the block's end there at all?
RECURSIVE Ended(_, _)
Ended(b, i) == LET l == Line(b, i) IN l.ok /\ (l.t \in {<<>>, <<13>>} \/ Ended(b, l.nxt))

Named(hs, nm) == {k \in 1 .. Len(hs) : CiEq(hs[k].n, nm)}
Firsts(hs) == SelectSeq([k \in 1 .. Len(hs) |-> k], LAMBDA k : ~\E j \in 1 .. k - 1 : CiEq(hs[j].n, hs[k].n))
ValOk(h, v) == IF h.fold THEN Collapse(Trim(h.v)) = Collapse(Trim(v)) ELSE RT(LT(h.v)) = RT(v)
\* the fields a receiver shows (pairs name, value), for the fields hs of the message
Shown(hs, H) ==
  LET f == Firsts(hs) IN
  /\ Len(H) = Len(f)
  /\ \A k \in 1 .. Len(f) : CiEq(H[k][1], hs[f[k]].n) /\ \E j \in Named(hs, H[k][1]) : ValOk(hs[j], H[k][2])

\* chunked body at i
HexV(c) == IF c \in 48 .. 57 THEN c - 48 ELSE IF c \in 65 .. 70 THEN c - 55 ELSE IF c \in 97 .. 102 THEN c - 87 ELSE -1
RECURSIVE HexLen(_, _), Chunks(_, _, _), Zeros(_, _)
HexLen(t, k) == IF k < Len(t) /\ HexV(t[k + 1]) >= 0 THEN HexLen(t, k + 1) ELSE k
Zeros(t, k) == IF k < Len(t) /\ t[k + 1] = 48 THEN Zeros(t, k + 1) ELSE k
ChunkSize(t) ==     \* -1: not a chunk-size line, -2: more than fits, -3: oddly spelled
  LET n == HexLen(t, 0) z == Zeros(t, 0) d == IF z > n THEN <<>> ELSE SubSeq(t, z + 1, n) IN
  IF n = 0 THEN (IF t # <<>> /\ t[1] \in Blank \cup {43} THEN -3 ELSE -1)
  ELSE IF n < Len(t) /\ t[n + 1] \notin {59, 32, 9} THEN -3
  ELSE IF Len(d) > 7 THEN -2
  ELSE FoldLeft(LAMBDA a, c : (a * 16) + HexV(c), 0, d)
Chunks(b, i, acc) ==
  LET l == Line(b, i) n == ChunkSize(l.t) av == Len(b) - l.nxt + 1
      R(st, d, x) == [st |-> st, body |-> d, nxt |-> x] IN
  IF ~l.ok THEN R("cut", acc, 0)
  ELSE IF n = -3 THEN R("odd", acc, 0)
  ELSE IF l.long \/ n = -1 THEN R("bad", acc, 0)
  ELSE IF n = -2 \/ n > av THEN R("cut", acc \o SubSeq(b, l.nxt, Len(b)), 0)
  ELSE IF n = 0 THEN
    LET RECURSIVE Tr(_)
        Tr(j) == LET m == Line(b, j) IN IF ~m.ok THEN R("cut", acc, 0) ELSE IF m.long THEN R("bad", acc, 0) ELSE IF m.t = <<>> THEN R("ok", acc, m.nxt) ELSE Tr(m.nxt)
    IN Tr(l.nxt)
  ELSE LET e == l.nxt + n d == acc \o SubSeq(b, l.nxt, e - 1) IN
       IF e <= Len(b) /\ b[e] = 10 THEN Chunks(b, e + 1, d)
       ELSE IF e + 1 <= Len(b) /\ b[e] = 13 /\ b[e + 1] = 10 THEN Chunks(b, e + 2, d)
       ELSE R(IF e > Len(b) \/ (e = Len(b) /\ b[e] = 13) THEN "cut" ELSE "bad", d, 0)

TE == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>
CL == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
Chunked == <<99,104,117,110,107,101,100>>
Dig(t) == t # <<>> /\ \A k \in DOMAIN t : Digit(t[k])
Num(t) == FoldLeft(LAMBDA a, c : (a * 10) + (c - 48), 0, t)
\* framing: "chunked", "len", "close" or "free" (several or odd framing fields)
Framing(hs) ==
  LET te == Named(hs, TE) cl == Named(hs, CL)
      tv == LT(hs[CHOOSE k \in te : TRUE].v) cv == LT(hs[CHOOSE k \in cl : TRUE].v)
      od == \E k \in te \cup cl : hs[k].fold IN
  IF Cardinality(te) > 1 \/ od THEN "free"
  ELSE IF te # {} THEN (IF CiEq(tv, Chunked) THEN "chunked" ELSE "free")
  ELSE IF Cardinality(cl) > 1 THEN "free"
  ELSE IF cl # {} THEN (IF Dig(cv) /\ Len(cv) <= 18 THEN "len" ELSE "free")
  ELSE "close"
\* a length of more than 9 digits is longer than any body here
LenOf(hs) == LET v == LT(hs[CHOOSE k \in Named(hs, CL) : TRUE].v)
                 z == MinOr({k \in 1 .. Len(v) : v[k] # 48}, Len(v))
                 d == SubSeq(v, z, Len(v)) IN IF Len(d) > 9 THEN 1000000000 ELSE Num(d)

\* start lines
HTTPs == <<72, 84, 84, 80, 47>>
Words(t) == SelectSeq(SplitAt(t, <<32>>), LAMBDA w : w # <<>>)
Ver(t) ==        \* <<major, minor>>, or <<>>
  LET d == At(t, 46) IN
  IF Len(t) >= 8 /\ CiEq(SubSeq(t, 1, 5), HTTPs) /\ d > 6 /\ d < Len(t)
     /\ Dig(SubSeq(t, 6, d - 1)) /\ Dig(SubSeq(t, d + 1, Len(t))) /\ d - 6 <= 4 /\ Len(t) - d <= 4
  THEN <<Num(SubSeq(t, 6, d - 1)), Num(SubSeq(t, d + 1, Len(t)))>> ELSE <<>>
VerLike(t) == Len(t) >= 6 /\ CiEq(SubSeq(t, 1, 5), HTTPs) /\ (Digit(t[6]) \/ t[6] \in {43, 45})
AlNum == (48 .. 57) \cup (65 .. 90) \cup (97 .. 122)
PathC == AlNum \cup {45, 46, 95, 126, 47, 61, 38}
HttpP == <<104, 116, 116, 112, 58, 47, 47>>
\* targets that must come out as they went in
SafePath(t) == LET q == At(t, 63) IN
  /\ t # <<>> /\ t[1] = 47 /\ ~Starts(t, <<47, 47>>)
  /\ \A k \in DOMAIN t : t[k] \in PathC \/ k = q
  /\ q # Len(t)
SafeTarget(t) == IF Starts(t, HttpP)
                 THEN LET r == SubSeq(t, 8, Len(t)) s == At(r, 47) IN
                      s > 1 /\ (\A k \in 1 .. s - 1 : r[k] \in AlNum \cup {46, 45}) /\ SafePath(SubSeq(r, s, Len(r)))
                 ELSE SafePath(t)
\* [cls: "ok" | "free" | "bad", s: the parts shown]
ReqLine(t) ==
  LET w == SplitAt(t, <<32>>) ww == Words(t) ctl == \E k \in DOMAIN t : t[k] \in Blank \ {32} IN
  IF ~ctl /\ Len(w) = 3 /\ Tok(w[1]) /\ SafeTarget(w[2]) /\ Ver(w[3]) # <<>> THEN [cls |-> "ok", s |-> <<w[1], w[2], Ver(w[3])>>]
  ELSE IF ~ctl /\ (Len(ww) < 3 \/ ~VerLike(ww[3])) THEN [cls |-> "bad", s |-> <<>>]
  ELSE [cls |-> "free", s |-> <<>>]
StatLine(t) ==
  LET ww == Words(t) ctl == \E k \in DOMAIN t : t[k] \in Blank \ {32} IN
  IF ctl THEN [cls |-> "free", s |-> <<>>]
  ELSE IF Len(ww) < 2 \/ ~VerLike(ww[1]) \/ ~(Digit(ww[2][1]) \/ ww[2][1] \in {43, 45}) THEN [cls |-> "bad", s |-> <<>>]
  ELSE IF /\ t[1] # 32 /\ Ver(ww[1]) # <<>> /\ Len(ww[2]) = 3 /\ Dig(ww[2])
          /\ SubSeq(t, Len(ww[1]) + 2, Len(ww[1]) + 4) = ww[2]
       THEN [cls |-> "ok", s |-> <<Num(ww[2]), LT(SubSeq(t, Len(ww[1]) + 5, Len(t))), Ver(ww[1])>>]
  ELSE [cls |-> "free", s |-> <<>>]

\* kind 0 request, 1 response.  may it / must it be refused; start line, fields, body at nxt
Parse(kind, b) ==
  LET l == Line(b, 1)
      sl == IF kind = 0 THEN ReqLine(l.t) ELSE StatLine(l.t)
      h == HeadAt(b, l.nxt, <<>>)
      fr == Framing(h.hs)
      lost == ~l.ok \/ (~l.long /\ sl.cls = "bad") \/ h.st = "cut" \/ (h.st \in {"bad", "long"} /\ ~Ended(b, h.nxt))
      odd == l.long \/ sl.cls # "ok" \/ h.st # "ok"
  IN [must |-> lost, may |-> lost \/ odd \/ fr = "free", start |-> IF l.ok /\ ~l.long /\ sl.cls = "ok" THEN sl.s ELSE <<>>,
      head |-> h, fr |-> IF odd THEN "free" ELSE fr, at |-> h.nxt]
\* is B what reading the body to its end gives, and R what is left on the connection?
BodyOk(p, b, B, R) ==
  LET av == Len(b) - p.at + 1 IN
  CASE p.fr = "free" -> TRUE
    [] p.fr = "close" -> B = SubSeq(b, p.at, Len(b)) /\ R = <<>>
    [] p.fr = "len" -> LET n == LenOf(p.head.hs) k == IF n < av THEN n ELSE av IN
                       B = SubSeq(b, p.at, p.at + k - 1) /\ R = SubSeq(b, p.at + k, Len(b))
    [] OTHER -> LET c == Chunks(b, p.at, <<>>) IN
                IF c.st = "ok" THEN B = c.body /\ R = SubSeq(b, c.nxt, Len(b))
                ELSE IF c.st = "odd" THEN TRUE
                ELSE Len(B) <= Len(c.body) /\ B = SubSeq(c.body, 1, Len(B))

\* what was received: start line parts, fields, body, bytes left
Received(kind, b, e) ==
  LET p == Parse(kind, b) IN
  IF e.x # 0 THEN p.may
  ELSE /\ ~p.must
       /\ p.start # <<>> => <<e.r[1], e.r[2], e.r[3]>> = p.start
       /\ p.head.st = "ok" => Shown(p.head.hs, e.r[4])
       /\ BodyOk(p, b, e.r[5], e.r[6])

\* what was sent (w) is the message: the caller's fields in order, and a length when there is a body
IsSent(kind, start, H, body, w) ==
  LET p == Parse(kind, w) f == p.head.hs
      own == SelectSeq(f, LAMBDA x : ~CiEq(x.n, CL) \/ \E k \in 1 .. Len(H) : CiEq(H[k][1], CL))
      has == Named(f, CL) # {} IN
  /\ ~p.must /\ p.start = start /\ p.head.st = "ok"
  /\ Len(own) = Len(H) /\ Shown(own, H)
  /\ SubSeq(w, p.at, Len(w)) = body
  /\ (body # <<>> /\ Len(own) = Len(f)) => \E k \in 1 .. Len(H) : CiEq(H[k][1], CL)
  /\ Len(own) < Len(f) => Cardinality(Named(f, CL)) = 1 /\ LenOf(f) = Len(body)

\* a table of fields: names differ in more than case
Find(h, k) == MinOr({i \in 1 .. Len(h) : CiEq(h[i][1], k)}, 0)
HostK == <<104, 111, 115, 116>>
GetM == <<71, 69, 84>>

HttpS0(h) == <<>>
HttpStep(s, e) ==
  CASE e.op = "recv" -> IF Received(e.a[1], e.a[2], e) THEN {s} ELSE {}
    \* sending: everything was accepted by the connection, or the sender was told
    [] e.op = "send" ->
         IF e.x # 0 THEN (IF e.a[6] = 1 THEN {s} ELSE {})
         ELSE IF e.a[6] = 0 /\ IsSent(e.a[1], e.a[2], e.a[3], e.a[4], e.r[1]) THEN {s} ELSE {}
    \* a stream on a URL: request sent, response received
    [] e.op = "get" ->
         LET p == Parse(1, e.a[2]) q == Parse(0, e.r[1])
             hk == Named(q.head.hs, HostK) IN
         IF e.x # 0 THEN (IF p.may THEN {s} ELSE {})
         ELSE IF /\ ~p.must
                 /\ ~q.must /\ q.start # <<>> /\ q.start[1] = GetM /\ q.start[2] = e.a[1] /\ q.fr = "close" /\ q.at = Len(e.r[1]) + 1
                 /\ Cardinality(hk) = 1 /\ \E i \in hk : Starts(LT(q.head.hs[i].v), e.a[3])
                 /\ p.head.st = "ok" => Shown(p.head.hs, e.r[2])
                 /\ BodyOk(p, e.a[2], e.r[3], SubSeq(e.a[2], IF p.fr = "len" THEN p.at + LenOf(p.head.hs) ELSE IF p.fr = "chunked" /\ Chunks(e.a[2], p.at, <<>>).st = "ok" THEN Chunks(e.a[2], p.at, <<>>).nxt ELSE Len(e.a[2]) + 1, Len(e.a[2])))
              THEN {s} ELSE {}
    [] e.op = "hset" -> LET i == Find(s, e.a[1]) IN {IF i = 0 THEN Append(s, <<e.a[1], e.a[2]>>) ELSE [s EXCEPT ![i] = <<@[1], e.a[2]>>]}
    [] e.op = "herase" -> LET i == Find(s, e.a[1]) IN {IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))}
    [] e.op = "hget" -> LET i == Find(s, e.a[1]) IN
         IF e.r[1] = Bit(i > 0) /\ e.r[2] = (IF i = 0 THEN <<>> ELSE s[i][2]) /\ Len(e.r[3]) = Len(s)
            /\ \A k \in 1 .. Len(s) : CiEq(e.r[3][k][1], s[k][1]) /\ e.r[3][k][2] = s[k][2]
         THEN {s} ELSE {}
=============================================================================
