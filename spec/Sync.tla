-------------------------------- MODULE Sync --------------------------------
(* pfi::concurrent mutex / r_mutex / scoped_lock / synchronized / condition. *)
(* st.m[i] = [rec, own, cnt]; own = 0: free.                                 *)
(* st.w    = waiters: set of [t, c] not yet notified; st.n: notified threads *)
EXTENDS Base

SyS0(h) == [m |-> [i \in 1 .. Len(h.rec) |-> [rec |-> h.rec[i], own |-> 0, cnt |-> 0]],
            w |-> {}, n |-> {}]

Take(st, i, t, c) == [st EXCEPT !.m[i].own = t, !.m[i].cnt = c]

SyApply(st, t, p) ==
  LET i == p.a[1] x == st.m[i]
      n == IF Len(p.a) > 1 THEN p.a[2] ELSE 1 IN     \* lock, unlock: so many times in a row, by a thread that lets no one between
  CASE p.op = "lock" ->
         IF x.own = 0 THEN {[s |-> Take(st, i, t, n), p |-> Done(p, <<1>>)]}
         ELSE IF x.own = t /\ x.rec = 1 THEN {[s |-> Take(st, i, t, x.cnt + n), p |-> Done(p, <<1>>)]}
         ELSE {}
    [] p.op = "unlock" ->
         IF x.own # t THEN (IF x.rec = 1 THEN {[s |-> st, p |-> Done(p, <<0>>)]} ELSE {})
         ELSE IF x.cnt > n THEN {[s |-> Take(st, i, t, x.cnt - n), p |-> Done(p, <<1>>)]}
         ELSE IF x.cnt < n THEN {[s |-> Take(st, i, 0, 0), p |-> Done(p, <<0>>)]}
         ELSE {[s |-> Take(st, i, 0, 0), p |-> Done(p, <<1>>)]}
    [] p.op = "notify" ->
         LET c == p.a[2] W == {u \in st.w : u.c = c} IN
         IF W = {} THEN {[s |-> st, p |-> Done(p, <<>>)]}
         ELSE {[s |-> [st EXCEPT !.w = @ \ {u}, !.n = @ \cup {u.t}], p |-> Done(p, <<>>)] : u \in W}
    [] p.op = "notify_all" ->
         LET c == p.a[2] W == {u \in st.w : u.c = c} IN
         {[s |-> [st EXCEPT !.w = @ \ W, !.n = @ \cup {u.t : u \in W}], p |-> Done(p, <<>>)]}
    [] p.op = "wait" ->
         LET c == p.a[2] me == [t |-> t, c |-> c] IN
         IF p.ph = 0 THEN
           IF x.own # t                         \* not the holder: returns at once, changes nothing
           THEN {[s |-> st, p |-> Done(p, IF p.tmo >= 0 THEN <<0>> ELSE <<>>)]}
           ELSE \* releases every recursion level atomically with starting to wait; ph remembers the depth
                {[s |-> [Take(st, i, 0, 0) EXCEPT !.w = @ \cup {me}], p |-> [p EXCEPT !.ph = x.cnt]]}
         ELSE IF t \in st.n THEN               \* notified: takes the lock back at its old depth
           (IF x.own # 0 THEN {}
            ELSE {[s |-> [Take(st, i, t, p.ph) EXCEPT !.n = @ \ {t}],
                   p |-> Done(p, IF p.tmo >= 0 THEN <<1>> ELSE <<>>)]})
         ELSE IF p.late THEN                   \* timed out: the same
           (IF x.own # 0 THEN {} ELSE {[s |-> Take(st, i, t, p.ph), p |-> TimedOut(p, <<0>>)]})
         ELSE IF p.tmo >= 0 THEN
           {[s |-> [st EXCEPT !.w = @ \ {me}], p |-> [p EXCEPT !.late = TRUE]]}
         ELSE {}
=============================================================================
