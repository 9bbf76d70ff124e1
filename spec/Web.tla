-------------------------------- MODULE Web --------------------------------
(***************************************************************************)
(* The stand-alone web server with several threads, as its clients and the  *)
(* program it runs see it.                                                  *)
(*   call/ret "req": request id, kind (0..2 complete ones, above: broken),   *)
(*     act (what the program is asked to do), how the client behaves;        *)
(*     result: status code (0: closed without an answer), id in the answer,  *)
(*     answer exactly the one due to id                                      *)
(*     (how = 3: it leaves without reading; how = 2: it pauses longer than   *)
(*     the timeout; how = 4: it stalls until all other clients are served)   *)
(*   "run": the program was run for a request id and was given its data      *)
(***************************************************************************)
EXTENDS Base
WebS0(h) == [p |-> [t \in 0 .. h.n |-> Idle], rq |-> <<>>, ran |-> {}, lost |-> h.cf = 1, tmo |-> h.tmo = 1]

Good(k) == k <= 2
\* status of a complete request, 0: the program failed and nothing was answered
Due(act) == CASE act = 1 -> 404 [] act = 2 -> 302 [] act = 3 -> 0 [] OTHER -> 200

OnCall(s, e) == {[s EXCEPT !.p[e.t] = Begin(e.op, e.a, e.w, e.m), !.rq = (e.a[1] :> e.a) @@ @]}

\* the program runs once for a complete request, while it is being made or after its client went away, with its own data
OnRun(s, e) ==
  IF /\ e.ok = 1 /\ e.id \in DOMAIN s.rq /\ e.id \notin s.ran
     /\ Good(s.rq[e.id][2]) /\ s.rq[e.id][3] = e.a
     \* the client's address, unless the connection is gone already
     /\ e.rem = 1 \/ s.lost \/ (s.tmo /\ s.rq[e.id][4] = 2)
  THEN {[s EXCEPT !.ran = @ \cup {e.id}]} ELSE {}

OnRet(s, e) ==
  LET p == s.p[e.t] id == p.a[1] kind == p.a[2] act == p.a[3] how == p.a[4] r == e.r
      excuse == s.lost \/ how = 3 \/ (s.tmo /\ how = 2)
      none == r[1] = 0
      \* an answer broken off by the loss of the connection
      cut == s.lost /\ r[3] = 0 /\ r[1] \in {-1, 500, Due(act)}
      ok == IF Good(kind)
            THEN \/ r = <<Due(act), IF Due(act) = 0 THEN 0 ELSE id, IF Due(act) = 0 THEN 0 ELSE 1>> /\ id \in s.ran
                 \/ none /\ excuse
                 \/ cut /\ id \in s.ran /\ r[2] \in {0, id}
            ELSE \/ none \/ (cut /\ r[1] \in {-1, 500}) \/ (r[1] = 500 /\ r[2] = 0 /\ r[3] = 1)
  IN IF p.st = "called" /\ ok THEN {[s EXCEPT !.p[e.t] = Idle]} ELSE {}

WebStep(s, e) ==
  CASE e.k = "call" -> OnCall(s, e)
    [] e.k = "ret"  -> OnRet(s, e)
    [] e.k = "run"  -> OnRun(s, e)
    [] e.k = "loss" -> {[s EXCEPT !.lost = TRUE]}
    \* in the end the server is still there and holds no connection
    [] e.k = "fds"  -> IF e.open = 1 /\ e.listen = 1 /\ e.bad = 0 THEN {s} ELSE {}
    \* every client got its answer, or the end of the connection
    [] e.k = "end"  -> IF e.b = <<>> THEN {s} ELSE {}
    [] OTHER -> {}
=============================================================================
