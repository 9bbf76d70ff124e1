-------------------------------- MODULE Rpc --------------------------------
(***************************************************************************)
(* Remote calls and the life of a server, as clients, handlers and the      *)
(* owner of the server see them.                                            *)
(*   call/ret "rpc": client, method, client version, call id (unique); the   *)
(*     arguments are the values with codes 10*id, 10*id+1, ...               *)
(*   "run": a handler ran with these arguments (codes) as run number r and   *)
(*     returned the value with code r                                        *)
(*   "raw": bytes that are (full = 1) or are not a complete request          *)
(* Results: 0 value, 1 unknown method, 2 version mismatch, 3 no connection,  *)
(* 4 other rpc_error.                                                       *)
(*                                                                          *)
(* may: the states the server may be in (0 stopped, 1 running, 2 stopping),  *)
(* given what has been called and has returned.                             *)
(***************************************************************************)
EXTENDS Base
Thrower == 10
Arity(m) == IF m = Thrower THEN 1 ELSE m
Known(m) == m <= Thrower

RpcS0(h) == [p |-> [t \in 0 .. h.n |-> Idle], ver |-> h.ver, fault |-> h.cf = 1, crf |-> h.crf,
             may |-> IF h.up = 1 THEN {1} ELSE {0}, starts |-> h.up, nw |-> h.nw, sh |-> h.sh = 1, lost |-> FALSE,
             rq |-> <<>>,      \* id -> method of complete requests sent with it
             noconn |-> {},    \* ids whose call had no connection
             runs |-> <<>>,    \* run number -> [m, id]
             ran |-> {},       \* ids run
             n0 |-> 0, r0 |-> 0, used |-> {},
             dead |-> FALSE]

\* the pending records carry: seen, the union of may during the operation; epoch
Mark(s, may) == [s EXCEPT !.may = may,
                   !.p = [t \in DOMAIN @ |-> IF @[t].st = "called" THEN [@[t] EXCEPT !.seen = @ \cup may] ELSE @[t]]]
Pend(s, op) == \E t \in DOMAIN s.p : s.p[t].st = "called" /\ s.p[t].op = op

OnCall(s, e) ==
  LET p == [st |-> "called", op |-> e.op, a |-> e.a, at |-> e.w, seen |-> s.may, ep |-> s.starts,
            r0 |-> Len(s.runs), lost |-> s.lost \/ s.fault, st1 |-> Pend(s, "stop"), sa |-> Pend(s, "start")]
      s1 == [s EXCEPT !.p[e.t] = p]
  IN CASE e.op = "rpc" -> {IF e.a[3] = s.ver /\ Known(e.a[2]) THEN [s1 EXCEPT !.rq = (e.a[4] :> e.a[2]) @@ @, !.n0 = IF e.a[2] = 0 THEN @ + 1 ELSE @] ELSE s1}
       [] e.op = "raw" -> {IF e.a[3] = 1 THEN [s1 EXCEPT !.rq = (e.a[2] :> e.a[1]) @@ @, !.n0 = IF e.a[1] = 0 THEN @ + 1 ELSE @] ELSE s1}
       [] e.op = "start" -> IF s.may = {0} THEN {Mark([s1 EXCEPT !.starts = @ + 1], {0, 1} \cup (IF p.st1 THEN {2} ELSE {}))} ELSE {}
       [] e.op = "stop" -> {IF 1 \in s.may THEN Mark(s1, s.may \cup {0, 2}) ELSE s1}
       [] OTHER -> {s1}

OnRun(s, e) ==
  LET id == IF e.m = 0 THEN 0 ELSE e.a[1] \div 10
      s1 == [s EXCEPT !.runs = Append(@, [m |-> e.m, id |-> id])]
  IN IF ~(/\ e.r = Len(s.runs) + 1
          /\ s.may # {0} /\ ~s.dead
          /\ Len(e.a) = Arity(e.m)) THEN {}
     ELSE IF e.m = 0 THEN (IF s.r0 < s.n0 THEN {[s1 EXCEPT !.r0 = @ + 1]} ELSE {})
     ELSE IF /\ id \in DOMAIN s.rq /\ s.rq[id] = e.m
             /\ id \notin s.ran /\ id \notin s.noconn
             /\ \A i \in 1 .. Len(e.a) : e.a[i] = (10 * id) + i - 1
          THEN {[s1 EXCEPT !.ran = @ \cup {id}]} ELSE {}

\* may a call of the record p fail for want of a server or a connection?
Excused(s, p) == p.seen # {1} \/ p.lost \/ s.lost \/ s.fault
\* a request that is refused before its arguments are read: the caller may fail to send them and not hear why
Unheard(s, m, v) == (~Known(m) \/ v # s.ver) /\ (s.sh \/ m \in {1, 2, 3, 4, 5, 8})
RetRpc(s, p, e, b) ==
  LET m == p.a[2] v == p.a[3] id == p.a[4] r == e.r IN
  CASE r[1] = 0 -> IF /\ Known(m) /\ m # Thrower /\ v = s.ver
                      /\ r[2] > p.r0 /\ r[2] <= Len(s.runs) /\ s.runs[r[2]].m = m
                      /\ (m = 0 \/ s.runs[r[2]].id = id) /\ r[2] \notin s.used
                   THEN {[b EXCEPT !.used = @ \cup {r[2]}]} ELSE {}
    [] r[1] = 1 -> IF ~Known(m) /\ r[2] = 1 /\ r[3] = 1 THEN {b} ELSE {}
    [] r[1] = 2 -> IF v # s.ver /\ r[2] = s.ver /\ r[3] = v THEN {b} ELSE {}
    [] r[1] = 3 -> IF Excused(s, p) /\ id \notin s.ran THEN {[b EXCEPT !.noconn = @ \cup {id}, !.n0 = IF m = 0 /\ v = s.ver THEN @ - 1 ELSE @]} ELSE {}
    [] r[1] = 4 -> IF (m = Thrower /\ id \in s.ran) \/ Excused(s, p) \/ Unheard(s, m, v) THEN {b} ELSE {}
    [] OTHER -> {}

OnRet(s, e) ==
  LET p == s.p[e.t] r == e.r b == [s EXCEPT !.p[e.t] = Idle] IN
  IF p.st # "called" THEN {}
  ELSE CASE p.op = "rpc" -> RetRpc(s, p, e, b)
    [] p.op = "raw" -> {b}
    \* a call answered by a server that sends only part of its reply, or all of it: id, kind of reply, complete
    [] p.op = "rpcf" ->
         LET id == p.a[2] k == p.a[3] IN
         IF \/ Excused(s, p) /\ r[1] \in {3, 4}
            \/ CASE p.a[4] = 0 -> r[1] = (IF k = 4 THEN 3 ELSE 4)
                 [] k = 0 -> r[1] = 0 /\ r[2] = (10 * id) + 5
                 [] k = 1 -> r = <<1, 1, 1>>
                 [] k = 2 -> r = <<2, 77123, -456789>>
                 [] OTHER -> r[1] = 4
         THEN {b} ELSE {}
    \* start fails only when the port or a thread is not to be had
    [] p.op = "start" ->
         IF r[1] = 1 THEN (IF r[2] = 1 THEN {IF p.seen \subseteq {0, 1} THEN Mark(b, {1}) ELSE b} ELSE {})
         ELSE IF s.crf > 0 THEN {b} ELSE {}
    [] p.op = "stop" ->
         IF r[1] # 1 THEN {}
         ELSE {IF s.starts = p.ep /\ ~p.sa THEN Mark(b, IF s.may = {0} THEN {0} ELSE {0, 2}) ELSE b}
    [] p.op = "wait" ->
         IF s.starts # p.ep \/ p.sa THEN {b}
         \* only a stopped server lets waiters go; its port is free
         ELSE IF 0 \in p.seen /\ r[1] = 0 THEN {Mark(b, {0})} ELSE {}
    [] p.op = "query" ->
         IF r[1] = 1 THEN (IF p.a[1] \in p.seen THEN {b} ELSE {})
         ELSE IF p.seen \ {p.a[1]} # {} THEN {b} ELSE {}
    \* nothing is left of a destroyed server (threads of an earlier start may still be about to end)
    [] p.op = "destroy" -> IF r[1] = 0 /\ r[2] <= s.nw * (s.starts - 1) /\ r[3] = 0 THEN {[b EXCEPT !.dead = TRUE]} ELSE {}

RpcStep(s, e) ==
  CASE e.k = "call" -> OnCall(s, e)
    [] e.k = "ret"  -> OnRet(s, e)
    [] e.k = "run"  -> OnRun(s, e)
    [] e.k = "loss" -> {[s EXCEPT !.lost = TRUE]}
    [] e.k = "fds"  -> IF e.open = 0 /\ e.bad = 0 THEN {s} ELSE {}
    \* everything ends: every client closes its connection and the server is stopped
    [] e.k = "end"  -> IF e.b = <<>> /\ \A t \in DOMAIN s.p : s.p[t].st = "idle" THEN {s} ELSE {}
    [] OTHER -> {}
=============================================================================
