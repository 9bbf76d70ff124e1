------------------------------- MODULE Thread -------------------------------
(* pfi::concurrent::thread.  o[i] = [ex: object exists, f: callable given,   *)
(* run: handle owned (started, not joined or detached), g: its generation];  *)
(* due: bodies <<i,g>> started but not begun; act: bodies running, as        *)
(* <<thread tag, i, g>>; fin: bodies finished; nc: creations so far;         *)
(* ids: <<tag, identifier>> of the live threads that asked for theirs        *)
EXTENDS Base
ThS0(h) == [o |-> [i \in 1 .. h.objs |-> [ex |-> FALSE, f |-> FALSE, run |-> FALSE, g |-> 0]],
            due |-> {}, act |-> {}, fin |-> {}, nc |-> 0, fail |-> h.fail, ids |-> {}, open |-> FALSE, intr |-> h.intr]

IdsOk(ids, t, v) == \A x \in ids : (x[1] = t) <=> (x[2] = v)

ThApply(st, t, p) ==
  CASE p.op = "new" ->
         {[s |-> [st EXCEPT !.o[p.a[1]] = [@ EXCEPT !.ex = TRUE, !.f = (p.a[2] = 1), !.run = FALSE]], p |-> Done(p, <<>>)]}
    [] p.op = "start" ->
         LET i == p.a[1] x == st.o[i] IN
         IF ~x.f \/ x.run THEN {[s |-> st, p |-> Done(p, <<0>>)]}
         ELSE IF st.nc + 1 = st.fail THEN {[s |-> [st EXCEPT !.nc = @ + 1], p |-> Done(p, <<0>>)]}
         ELSE {[s |-> [st EXCEPT !.nc = @ + 1, !.o[i].run = TRUE, !.o[i].g = @ + 1, !.due = @ \cup {<<i, x.g + 1>>}],
                p |-> Done(p, <<1>>)]}
    [] p.op = "join" ->
         LET i == p.a[1] x == st.o[i] IN
         IF ~x.run THEN {[s |-> st, p |-> Done(p, <<0>>)]}
         ELSE IF <<i, x.g>> \in st.fin THEN {[s |-> [st EXCEPT !.o[i].run = FALSE], p |-> Done(p, <<1>>)]}
         ELSE {}
    [] p.op = "detach" -> {[s |-> [st EXCEPT !.o[p.a[1]].run = FALSE], p |-> Done(p, <<>>)]}
    [] p.op = "del"    -> {[s |-> [st EXCEPT !.o[p.a[1]].run = FALSE, !.o[p.a[1]].ex = FALSE], p |-> Done(p, <<>>)]}
    \* the function handed to thread p.a[1] begins / ends, on its own thread t
    [] p.op = "bbegin" -> {[s |-> [st EXCEPT !.due = @ \ {b}, !.act = @ \cup {<<t, b[1], b[2]>>}], p |-> Done(p, <<>>)] :
                             b \in {x \in st.due : x[1] = p.a[1]}}
    [] p.op = "bend"   -> {[s |-> [st EXCEPT !.act = @ \ {b}, !.fin = @ \cup {<<b[2], b[3]>>},
                                             !.ids = {x \in @ : x[1] # t}], p |-> Done(p, <<>>)] :
                             b \in {x \in st.act : x[1] = t /\ x[2] = p.a[1]}}
    [] p.op = "id"     -> IF IdsOk(st.ids, t, p.a[1]) THEN {[s |-> [st EXCEPT !.ids = @ \cup {<<t, p.a[1]>>}], p |-> Done(p, <<>>)]}
                          ELSE {}
    [] p.op = "sleep"  -> {[s |-> st, p |-> TimedOut(p, <<1>>)]}
                          \* an interrupted sleep says so
                          \cup (IF st.intr > 0 THEN {[s |-> [st EXCEPT !.intr = @ - 1], p |-> Done(p, <<0>>)]} ELSE {})
    \* functions may wait for something their starter does later
    [] p.op = "gate"   -> IF st.open THEN {[s |-> st, p |-> Done(p, <<>>)]} ELSE {}
    [] p.op = "open"   -> {[s |-> [st EXCEPT !.open = TRUE], p |-> Done(p, <<>>)]}
    [] p.op = "yield"  -> {[s |-> st, p |-> Done(p, <<>>)]}
    \* once all is over: live copies of the functions, threads neither joined nor detached
    [] p.op = "leak"   -> IF st.due = {} /\ st.act = {} THEN {[s |-> st, p |-> Done(p, <<0, 0>>)]} ELSE {}
\* every started function has been run, exactly once, to its end
ThFinal(st) == st.due = {} /\ st.act = {}

\* small instance: threads 1,2 control objects 1,2; threads 3,4 run bodies
ThMC0 == [o |-> [i \in 1 .. 2 |-> [ex |-> TRUE, f |-> TRUE, run |-> FALSE, g |-> 0]],
          due |-> {}, act |-> {}, fin |-> {}, nc |-> 0, fail |-> 2, ids |-> {}, open |-> FALSE, intr |-> 0]
ThOps(st, t) == IF t <= 2 THEN {<<"start", <<t>>, -1>>, <<"join", <<t>>, -1>>, <<"detach", <<t>>, -1>>}
                ELSE IF \E b \in st.act : b[1] = t THEN {<<"bend", <<b[2]>>, -1>> : b \in {x \in st.act : x[1] = t}}
                ELSE {<<"bbegin", <<1>>, -1>>, <<"bbegin", <<2>>, -1>>}
ThMayBlock(st, t, p) == \/ p.op = "join" /\ st.o[p.a[1]].run /\ <<p.a[1], st.o[p.a[1]].g>> \notin st.fin
                        \/ p.op = "bbegin" /\ \A b \in st.due : b[1] # p.a[1]
Started(st) == st.due \cup {<<b[2], b[3]>> : b \in st.act} \cup st.fin
ThInv(st) == /\ st.due \cap st.fin = {} /\ {<<b[2], b[3]>> : b \in st.act} \cap (st.fin \cup st.due) = {}
             /\ \A i \in DOMAIN st.o : {b[2] : b \in {x \in Started(st) : x[1] = i}} = 1 .. st.o[i].g
             /\ \A i \in DOMAIN st.o : st.o[i].run => st.o[i].g > 0
=============================================================================
