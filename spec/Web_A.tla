------------------------------- MODULE Web_A -------------------------------
(* The design: threads taking connections off one queue, one request each, with *)
(* a program of their own.  What it does is accepted by Web (mon never runs     *)
(* empty); when all is over the server still stands and holds nothing; and a    *)
(* client is served in the end although others stall or leave, as long as fewer *)
(* stall than there are threads.                                                *)
EXTENDS Web
CONSTANTS Threads, Clients, Kinds, Acts, Hows
VARIABLES rq, cl, q, th, prog, ans, mon
vars == <<rq, cl, q, th, prog, ans, mon>>
\* cl: new, part (part of the request sent), sent, left, done
H == [n |-> 9, cf |-> 0, tmo |-> 0]
Stallers == {c \in Clients : rq[c].how = 4}
Init == /\ rq \in [Clients -> [kind : Kinds, act : Acts, how : Hows]]
        /\ Cardinality(Stallers) < Cardinality(Threads)
        /\ cl = [c \in Clients |-> "new"] /\ q = <<>> /\ th = [t \in Threads |-> 0]
        /\ prog = [t \in Threads |-> 0]        \* whose data the thread's own program object holds
        /\ ans = [c \in Clients |-> <<>>]
        /\ mon = {WebS0(H)}
Do(e) == mon' = UNION {WebStep(m, e) : m \in mon}
Connect(c) == /\ cl[c] = "new" /\ cl' = [cl EXCEPT ![c] = "part"] /\ q' = Append(q, c)
              /\ Do([k |-> "call", t |-> c, op |-> "req", a |-> <<c, rq[c].kind, rq[c].act, rq[c].how>>, w |-> 0, m |-> -1])
              /\ UNCHANGED <<rq, th, prog, ans>>
Send(c) == /\ cl[c] = "part" /\ (rq[c].how # 4 \/ \A d \in Clients \ Stallers : cl[d] = "done")
           /\ cl' = [cl EXCEPT ![c] = "sent"] /\ UNCHANGED <<rq, q, th, prog, ans, mon>>
Leave(c) == /\ rq[c].how = 3 /\ cl[c] \in {"part", "sent"} /\ cl' = [cl EXCEPT ![c] = "done"]
            /\ Do([k |-> "ret", t |-> c, w |-> 0, r |-> <<0, -2, 0>>]) /\ UNCHANGED <<rq, q, th, prog, ans>>
Accept(t) == /\ th[t] = 0 /\ q # <<>> /\ th' = [th EXCEPT ![t] = q[1]] /\ q' = Tail(q)
             /\ UNCHANGED <<rq, cl, prog, ans, mon>>
\* the whole request is there
Run(t) == LET c == th[t] IN
          /\ c \in Clients /\ prog[t] # c /\ Good(rq[c].kind) /\ (cl[c] = "sent" \/ (cl[c] = "done" /\ ans[c] = <<>>))
          /\ prog' = [prog EXCEPT ![t] = c]
          /\ Do([k |-> "run", id |-> c, a |-> rq[c].act, ok |-> 1, rem |-> 1]) /\ UNCHANGED <<rq, cl, q, th, ans>>
\* what is answered is made from the thread's own program; 0: closed without one
Reply(t) == LET c == th[t] p == prog[t] IN
            /\ c \in Clients /\ p = c
            /\ ans' = [ans EXCEPT ![c] = IF Due(rq[p].act) = 0 THEN <<0, 0, 0>> ELSE <<Due(rq[p].act), p, 1>>]
            /\ th' = [th EXCEPT ![t] = 0] /\ prog' = [prog EXCEPT ![t] = 0] /\ UNCHANGED <<rq, cl, q, mon>>
\* a broken request, or a client that left: closed, or told of an error
Refuse(t) == LET c == th[t] IN
             /\ c \in Clients /\ prog[t] # c /\ ((~Good(rq[c].kind) /\ cl[c] # "part") \/ cl[c] = "done")
             /\ \E r \in {<<0, 0, 0>>, <<500, 0, 1>>} : ans' = [ans EXCEPT ![c] = r]
             /\ th' = [th EXCEPT ![t] = 0] /\ UNCHANGED <<rq, cl, q, prog, mon>>
Get(c) == /\ cl[c] = "sent" /\ rq[c].how # 3 /\ ans[c] # <<>>
          /\ cl' = [cl EXCEPT ![c] = "done"] /\ Do([k |-> "ret", t |-> c, w |-> 0, r |-> ans[c]])
          /\ UNCHANGED <<rq, q, th, prog, ans>>
Cl(c) == Connect(c) \/ Send(c) \/ Leave(c) \/ Get(c)
Th(t) == Accept(t) \/ Run(t) \/ Reply(t) \/ Refuse(t)
Next == \/ \E c \in Clients : Cl(c)
        \/ \E t \in Threads : Th(t)
Spec == Init /\ [][Next]_vars /\ (\A c \in Clients : WF_vars(Cl(c))) /\ (\A t \in Threads : WF_vars(Th(t)))
Inv == /\ mon # {}
       /\ \A c \in Clients : Cardinality({t \in Threads : th[t] = c}) <= 1
Quiet == \A c \in Clients : cl[c] = "done"
Served == <>(Quiet /\ \A t \in Threads : th[t] = 0)
=============================================================================
