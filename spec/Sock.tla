-------------------------------- MODULE Sock --------------------------------
(***************************************************************************)
(* stream_socket, server_socket and socketstream as their users see them.   *)
(* A connection c has two sides (0: the connecting one, 1: the accepted     *)
(* one).  For side d of c: att[d] bytes were handed to write, acc[d] of     *)
(* them were accepted, fl[d] are known to be on their way (flushed), R[d]   *)
(* bytes were read; cl[d]: the side began to close; fail[d]: an operation   *)
(* of the side reported the end of the stream or an error, dw[d]: bytes     *)
(* accepted by a dead side and not reported lost yet; tmo[d]: timeout.      *)
(* Byte(c,d,i) is the content the driver sends.                             *)
(***************************************************************************)
EXTENDS Base

Ends == << <<13, 10, 13, 10>>, <<10, 10, 13, 10>>, <<13, 13, 10, 13>> >>
Byte(c, d, pos) ==
  LET q == pos % 251
      blk == pos \div 4
      kind == ((blk * blk) + (5 * blk) + (c * 3) + d) % 13
      v == (((q * q) * 3) + (q * ((2 * c) + d)) + (c * 7) + (d * 5) + (pos \div 97)) % 64
  IN IF c % 3 # 0 /\ kind < 3 THEN Ends[kind + 1][(pos % 4) + 1]
     ELSE IF v = 0 THEN 10 ELSE IF v <= 2 THEN 13 ELSE IF v = 3 THEN 255 ELSE IF v = 4 THEN 0
     ELSE ((v * 37) + (q * 11) + c + (128 * d)) % 256

Conn0 == [att |-> <<0, 0>>, acc |-> <<0, 0>>, fl |-> <<0, 0>>, R |-> <<0, 0>>, cl |-> <<FALSE, FALSE>>,
          fail |-> <<FALSE, FALSE>>, dw |-> <<0, 0>>, tmo |-> <<0, 0>>, lost |-> FALSE,
          con |-> FALSE, accd |-> FALSE]
MaxC == 12
SockS0(h) == [p |-> [t \in 0 .. h.n |-> Idle], x |-> [c \in 1 .. MaxC |-> Conn0], sclosed |-> FALSE,
              dead |-> [e \in 1 .. h.ne |-> FALSE], cap |-> h.cap, cf |-> h.cf = 1, st |-> h.st]

\* sides are 0 and 1; the fields are tuples
Me(d) == d + 1
Pe(d) == 2 - d
PTmo(s, p, e) == LET t == s.x[p.a[2]].tmo[Me(p.a[3])] IN t > 0 /\ e.w - p.at >= t
Gone(s, c) == s.x[c].lost \/ (s.sclosed /\ ~s.x[c].accd)
\* side d of c has been closed, or may have been by an operation under way that timed out
Closed(s, c, d, e) == \/ s.x[c].cl[Me(d)] \/ s.x[c].fail[Me(d)]
                      \/ \E t \in DOMAIN s.p : LET p == s.p[t] IN
                           p.st = "called" /\ Len(p.a) >= 3 /\ p.a[2] = c /\ p.a[3] = d /\ PTmo(s, p, e)
\* why an operation of side d may end early
Cause(s, p, e) == LET c == p.a[2] d == p.a[3] k == s.x[c] IN
                  Closed(s, c, 1 - d, e) \/ Gone(s, c) \/ k.fail[Me(d)] \/ PTmo(s, p, e)
\* the peer closed in good order: everything it flushed has been seen
AllSeen(s, p, e, upto) == LET c == p.a[2] d == p.a[3] k == s.x[c] IN
  (Gone(s, c) \/ k.fail[Me(d)] \/ PTmo(s, p, e)) \/ upto >= k.fl[Pe(d)]

Back(s, e) == [s EXCEPT !.p[e.t] = Idle]
SetFail(s, c, d) == [s EXCEPT !.x[c].fail[Me(d)] = TRUE]
Took(s, c, d, n) == [s EXCEPT !.x[c].R[Me(d)] = @ + n]

NoLF(c, d, from, n) == \A i \in 0 .. n - 1 : Byte(c, d, from + i) # 10

OnCall(s, e) ==
  LET p == Begin(e.op, e.a, e.w, e.m) s1 == [s EXCEPT !.p[e.t] = p]
      c == IF Len(e.a) >= 3 THEN e.a[2] ELSE 0
      d == IF Len(e.a) >= 3 THEN e.a[3] ELSE 0
  IN CASE e.op = "write" /\ c > 0 -> {[s1 EXCEPT !.x[c].att[Me(d)] = @ + e.a[4]]}
       [] e.op = "destroy" /\ c > 0 ->
            {[s1 EXCEPT !.x[c].cl[Me(d)] = TRUE,
                        !.x[c].fl[Me(d)] = IF s.x[c].fail[Me(d)] \/ s.x[c].tmo[Me(d)] > 0 THEN @ ELSE s.x[c].acc[Me(d)]]}
       [] e.op \in {"shutdown", "connect"} /\ c > 0 -> {[s1 EXCEPT !.x[c].cl[Me(d)] = TRUE]}
       [] e.op = "sclose" -> {[s1 EXCEPT !.sclosed = TRUE]}
       [] OTHER -> {s1}

\* the positions the bytes returned may have started at, as the driver found them
From(r, i) == {r[k] : k \in i .. Len(r)}

RetGetline(s, p, e) ==
  LET c == p.a[2] d == p.a[3] lim == p.a[4] r == e.r ok == r[1] = 1 n == r[2] at == From(r, 4)
      k == s.x[c] o == 1 - d R == k.R[Me(d)] att == k.att[Pe(d)] b == Back(s, e)
      eof(u) == IF Cause(s, p, e) /\ AllSeen(s, p, e, R + u) THEN {SetFail(Took(b, c, d, u), c, d)} ELSE {}
  IN IF ~ok THEN (IF lim = 0 THEN {} ELSE eof(0))
     ELSE IF ~((n > 0 => R \in at) /\ R + n <= att /\ NoLF(c, o, R, n)) THEN {}
     ELSE IF lim = -2 THEN
            (IF r[3] = 1 THEN (IF n > 0 THEN eof(n) ELSE {})
             ELSE IF R + n + 1 <= att /\ Byte(c, o, R + n) = 10 THEN {Took(b, c, d, n + 1)} ELSE {})
     ELSE (IF R + n + 1 <= att /\ Byte(c, o, R + n) = 10 /\ (n = 0 \/ Byte(c, o, R + n - 1) # 13) /\ (lim < 0 \/ n + 1 <= lim)
           THEN {Took(b, c, d, n + 1)} ELSE {})
          \cup (IF R + n + 2 <= att /\ Byte(c, o, R + n) = 13 /\ Byte(c, o, R + n + 1) = 10 /\ (lim < 0 \/ n + 2 <= lim)
                THEN {Took(b, c, d, n + 2)} ELSE {})
          \cup (IF lim >= 0 /\ n = lim THEN {Took(b, c, d, n)} ELSE {})
          \cup (IF n > 0 /\ ~(lim >= 0 /\ n >= lim) THEN eof(n) ELSE {})

RetRead(s, p, e, n, take) ==
  LET c == p.a[2] d == p.a[3] k == e.r[1] x == s.x[c] R == x.R[Me(d)] b == Back(s, e) IN
  IF ~(/\ 0 <= k /\ k <= n
       /\ (k > 0 => R \in From(e.r, 2))
       /\ R + k <= x.att[Pe(d)]) THEN {}
  ELSE IF k = n THEN {IF take THEN Took(b, c, d, k) ELSE b}
  ELSE IF Cause(s, p, e) /\ AllSeen(s, p, e, R + k) THEN {SetFail(IF take THEN Took(b, c, d, k) ELSE b, c, d)}
  ELSE {}

OnRet(s, e) ==
  LET p == s.p[e.t] r == e.r b == Back(s, e)
      c == IF Len(p.a) >= 3 THEN p.a[2] ELSE 0
      d == IF Len(p.a) >= 3 THEN p.a[3] ELSE 0
  IN IF p.st # "called" THEN {}
     ELSE CASE p.op = "connect" ->
            LET ep == p.a[1] ok == r[1] = 1
                b1 == [b EXCEPT !.dead[ep] = ~ok]
                wasdead == s.dead[ep] \/ (c > 0 /\ s.x[c].fail[Me(d)])
            IN IF ok THEN (IF /\ r[2] > 0 /\ r[3] = 3 /\ p.a[4] # 2 /\ ~s.x[r[2]].con
                              THEN {[b1 EXCEPT !.x[r[2]].con = TRUE]} ELSE {})
               ELSE IF /\ r[2] = 0 /\ r[3] = 1
                       /\ p.a[4] = 2 \/ s.cf \/ s.sclosed \/ (wasdead /\ s.st[ep] = 0)
                    THEN {b1} ELSE {}
       [] p.op = "accept" ->
            IF r[1] = 1 THEN (IF r[2] > 0 /\ r[2] = r[3] /\ ~s.x[r[2]].accd
                              THEN {[b EXCEPT !.x[r[2]].accd = TRUE]} ELSE {})
            ELSE IF s.sclosed \/ s.cf THEN {b} ELSE {}
       [] p.op = "write" ->
            LET n == p.a[4] k == r[1] IN
            IF k = n THEN {[b EXCEPT !.x[c].acc[Me(d)] = @ + n,
                                     !.x[c].dw[Me(d)] = IF s.x[c].fail[Me(d)] THEN @ + n ELSE @]}
            ELSE IF k < n /\ Cause(s, p, e) THEN {[SetFail(b, c, d) EXCEPT !.x[c].dw[Me(d)] = 0]} ELSE {}
       [] p.op = "flush" ->
            IF c = 0 THEN {b}
            ELSE IF r[1] = 1 THEN (IF s.x[c].fail[Me(d)] THEN (IF s.x[c].dw[Me(d)] > 0 THEN {} ELSE {b})
                                   ELSE {[b EXCEPT !.x[c].fl[Me(d)] = s.x[c].acc[Me(d)]]})
            ELSE IF Cause(s, p, e) THEN {[SetFail(b, c, d) EXCEPT !.x[c].dw[Me(d)] = 0]} ELSE {}
       [] p.op = "read" -> IF c = 0 THEN (IF r[1] = 0 \/ s.dead[p.a[1]] THEN {b} ELSE {}) ELSE RetRead(s, p, e, p.a[4], TRUE)
       [] p.op = "getc" -> IF c = 0 THEN (IF r[1] = 0 \/ s.dead[p.a[1]] THEN {b} ELSE {}) ELSE RetRead(s, p, e, 1, TRUE)
       [] p.op = "peek" -> IF c = 0 THEN (IF r[1] = 0 \/ s.dead[p.a[1]] THEN {b} ELSE {}) ELSE RetRead(s, p, e, 1, FALSE)
       [] p.op = "getline" -> IF c = 0 THEN (IF r[1] = 0 \/ r[2] = 0 \/ s.dead[p.a[1]] THEN {b} ELSE {}) ELSE RetGetline(s, p, e)
       [] p.op = "shutdown" ->
            IF r[2] = 0 /\ (r[1] = 1 \/ c = 0 \/ s.x[c].fail[Me(d)]) THEN {[b EXCEPT !.dead[p.a[1]] = (r[1] = 0)]} ELSE {}
       [] p.op = "destroy" -> {[b EXCEPT !.dead[p.a[1]] = FALSE]}
       [] p.op = "timeout" -> IF c = 0 THEN {b} ELSE IF r[1] = 1 THEN {[b EXCEPT !.x[c].tmo[Me(d)] = p.a[4] * 500000]}
                              ELSE IF s.x[c].fail[Me(d)] THEN {b} ELSE {}
       [] p.op = "isconn" -> IF r[1] = (IF c = 0 THEN 0 ELSE IF s.x[c].fail[Me(d)] THEN 0 ELSE 1) THEN {b} ELSE {}
       [] p.op = "sclose" -> {b}

\* side d of c is closed for good (not just about to be, after flushing)
ClosedNow(s, c, d) == s.x[c].cl[Me(d)] /\ ~\E t \in DOMAIN s.p : LET p == s.p[t] IN
                        p.st = "called" /\ p.op \in {"destroy", "connect"} /\ p.a[2] = c /\ p.a[3] = d
\* may this operation be blocked for ever?
Stuck(s, p) ==
  LET c == IF Len(p.a) >= 3 THEN p.a[2] ELSE 0 d == IF Len(p.a) >= 3 THEN p.a[3] ELSE 0 IN
  IF p.op = "accept" THEN \A k \in 1 .. MaxC : s.x[k].con => (s.x[k].accd \/ s.x[k].lost)
  ELSE IF c = 0 THEN FALSE
  ELSE LET x == s.x[c] R == x.R[Me(d)] fl == x.fl[Pe(d)] IN
       /\ ~ClosedNow(s, c, 1 - d) /\ ~x.fail[Pe(d)] /\ ~Gone(s, c) /\ ~x.fail[Me(d)] /\ x.tmo[Me(d)] = 0
       /\ CASE p.op = "read" -> R + p.a[4] > fl
            [] p.op \in {"getc", "peek"} -> R + 1 > fl
            [] p.op = "getline" -> NoLF(c, 1 - d, R, fl - R) /\ (p.a[4] >= 0 => R + p.a[4] > fl)
            [] p.op \in {"write", "flush", "destroy", "connect"} -> x.att[Me(d)] - x.R[Pe(d)] >= s.cap
            [] OTHER -> FALSE

OnEnd(s, e) ==
  IF /\ {t \in DOMAIN s.p : s.p[t].st = "called"} = {e.b[i] : i \in 1 .. Len(e.b)}
     /\ \A t \in DOMAIN s.p : s.p[t].st = "called" => Stuck(s, s.p[t])
  THEN {s} ELSE {}

SockStep(s, e) ==
  CASE e.k = "call" -> OnCall(s, e)
    [] e.k = "ret"  -> OnRet(s, e)
    [] e.k = "loss" -> {[s EXCEPT !.x[e.c].lost = TRUE]}
    \* descriptors: none leaked, none closed twice
    [] e.k = "fds"  -> IF e.open <= e.held /\ e.bad = 0 THEN {s} ELSE {}
    [] e.k = "end"  -> OnEnd(s, e)
    [] OTHER -> {}
=============================================================================
