------------------------------- MODULE RwLock -------------------------------
(* pfi::concurrent::rw_mutex.  wr: writing thread or 0; rd: reading threads; *)
(* wq: threads waiting to write (a reader may be held back behind them).     *)
EXTENDS Base
RwS0(h) == [wr |-> 0, rd |-> {}, wq |-> {}]

RwApply(st, t, p) ==
  CASE p.op = "rlock" ->
         (IF st.wr = 0 THEN {[s |-> [st EXCEPT !.rd = @ \cup {t}], p |-> Done(p, <<1>>)]} ELSE {})
         \cup (IF p.tmo >= 0 /\ (st.wr # 0 \/ (st.wq # {} /\ st.rd # {})) THEN {[s |-> st, p |-> TimedOut(p, <<0>>)]} ELSE {})
    [] p.op = "wlock" ->
         IF st.wr = 0 /\ st.rd = {} THEN {[s |-> [st EXCEPT !.wr = t, !.wq = @ \ {t}], p |-> Done(p, <<1>>)]}
         ELSE (IF p.ph = 0 THEN {[s |-> [st EXCEPT !.wq = @ \cup {t}], p |-> [p EXCEPT !.ph = 1]]} ELSE {})
              \cup (IF p.tmo >= 0 THEN {[s |-> [st EXCEPT !.wq = @ \ {t}], p |-> TimedOut(p, <<0>>)]} ELSE {})
    [] p.op = "unlock" ->
         IF st.wr = t THEN {[s |-> [st EXCEPT !.wr = 0], p |-> Done(p, <<1>>)]}
         ELSE IF t \in st.rd THEN {[s |-> [st EXCEPT !.rd = @ \ {t}], p |-> Done(p, <<1>>)]}
         ELSE {}
\* a reader waits for a writer that holds the lock, or behind one that waits for
\* other readers; a writer waits for any holder; timed attempts never block
RwMayBlock(st, t, p) ==
  /\ p.tmo < 0
  /\ \/ p.op = "rlock" /\ (st.wr # 0 \/ (st.wq # {} /\ st.rd # {}))
     \/ p.op = "wlock" /\ (st.wr # 0 \/ st.rd # {})

RwMC0 == [wr |-> 0, rd |-> {}, wq |-> {}]
RwOps(st, t) == IF st.wr = t \/ t \in st.rd THEN {<<"unlock", <<>>, -1>>}
                ELSE {<<"rlock", <<>>, -1>>, <<"rlock", <<>>, 1>>, <<"wlock", <<>>, -1>>, <<"wlock", <<>>, 1>>}
RwInv(st) == st.wr # 0 => st.rd = {}
=============================================================================
