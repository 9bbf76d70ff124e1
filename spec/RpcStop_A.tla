------------------------------ MODULE RpcStop_A ------------------------------
(***************************************************************************)
(* Design model of stopping an rpc_server: workers that check the state,    *)
(* block in accept and serve one connection at a time; stop() closes the    *)
(* listening descriptor while holding the state mutex and then sends one    *)
(* termination request per worker.  As on Linux, a closed listening socket  *)
(* stays alive while a thread is blocked in accept on it, and connections   *)
(* not accepted when it goes away are reset.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, C, Stoppers, Waiters
VARIABLES st, lock, wpc, wc, fd, backlog, cpc, spc, si, num, wait
vars == <<st, lock, wpc, wc, fd, backlog, cpc, spc, si, num, wait>>
Xs == {<<s, i>> : s \in Stoppers, i \in 1 .. Cardinality(W)}
\* connections: clients c \in C; termination requests <<s, i>>
Alive == fd \/ \E w \in W : wpc[w] = "acc"
Init == /\ st = "run" /\ lock = {} /\ fd = TRUE /\ backlog = <<>>
        /\ wpc = [w \in W |-> "chk"] /\ wc = [w \in W |-> <<>>]
        /\ cpc = [c \in C |-> "new"] /\ spc = [s \in Stoppers |-> "new"] /\ si = [s \in Stoppers |-> 1]
        /\ num = Cardinality(W) /\ wait = [x \in Waiters |-> "new"]
\* worker: while (is_running()) needs the mutex for a moment
Chk(w) == /\ wpc[w] = "chk" /\ lock = {}
          /\ wpc' = [wpc EXCEPT ![w] = IF st = "run" THEN "enter" ELSE "exit"]
          /\ UNCHANGED <<st, lock, wc, fd, backlog, cpc, spc, si, num, wait>>
Enter(w) == /\ wpc[w] = "enter"
            /\ wpc' = [wpc EXCEPT ![w] = IF fd THEN "acc" ELSE "chk"]     \* closed: accept fails
            /\ UNCHANGED <<st, lock, wc, fd, backlog, cpc, spc, si, num, wait>>
Accept(w) == /\ wpc[w] = "acc" /\ backlog # <<>>
             /\ wc' = [wc EXCEPT ![w] = Head(backlog)]
             /\ wpc' = [wpc EXCEPT ![w] = "serve"]
             \* the last one out resets what nobody will accept
             /\ LET dead == ~fd /\ \A v \in W \ {w} : wpc[v] # "acc"
                    rest == Tail(backlog)
                    Hit(x) == \E k \in 1 .. Len(rest) : rest[k] = x
                IN /\ backlog' = IF dead THEN <<>> ELSE rest
                   /\ cpc' = [c \in C |-> IF dead /\ Hit(<<"c", c>>) THEN "gone" ELSE cpc[c]]
                   /\ spc' = [s \in Stoppers |-> IF dead /\ spc[s] = "sent" /\ Hit(<<"x", s>>) THEN "next" ELSE spc[s]]
             /\ UNCHANGED <<st, lock, fd, si, num, wait>>
\* a worker serves a client until that one leaves; a termination request is answered at once
Serve(w) == /\ wpc[w] = "serve"
            /\ \/ wc[w][1] = "c" /\ cpc[wc[w][2]] = "gone" /\ UNCHANGED spc
               \/ wc[w][1] = "x" /\ spc' = [spc EXCEPT ![wc[w][2]] = "next"]
            /\ wpc' = [wpc EXCEPT ![w] = "chk"] /\ wc' = [wc EXCEPT ![w] = <<>>]
            /\ UNCHANGED <<st, lock, fd, backlog, cpc, si, num, wait>>
Exit(w) == /\ wpc[w] = "exit" /\ lock = {}
           /\ num' = num - 1 /\ st' = IF num' = 0 THEN "stopped" ELSE st
           \* notify_all
           /\ wait' = [x \in Waiters |-> IF num' = 0 /\ wait[x] = "wait" THEN "done" ELSE wait[x]]
           /\ wpc' = [wpc EXCEPT ![w] = "done"]
           /\ UNCHANGED <<lock, wc, fd, backlog, cpc, spc, si>>
\* clients connect at any time and leave at some time
Connect(c) == /\ cpc[c] = "new"
              /\ IF Alive THEN backlog' = Append(backlog, <<"c", c>>) /\ cpc' = [cpc EXCEPT ![c] = "on"]
                 ELSE cpc' = [cpc EXCEPT ![c] = "gone"] /\ UNCHANGED backlog
              /\ UNCHANGED <<st, lock, wpc, wc, fd, spc, si, num, wait>>
Leave(c) == /\ cpc[c] = "on" /\ cpc' = [cpc EXCEPT ![c] = "gone"]
            /\ UNCHANGED <<st, lock, wpc, wc, fd, backlog, spc, si, num, wait>>
\* stop()
Lock(s) == /\ spc[s] = "new" /\ lock = {}
           /\ IF st = "run" THEN lock' = {s} /\ st' = "stopping" /\ spc' = [spc EXCEPT ![s] = "close"]
              ELSE spc' = [spc EXCEPT ![s] = "done"] /\ UNCHANGED <<lock, st>>
           /\ UNCHANGED <<wpc, wc, fd, backlog, cpc, si, num, wait>>
Close(s) == /\ spc[s] = "close" /\ fd' = FALSE
            /\ LET dead == \A v \in W : wpc[v] # "acc" IN
               /\ backlog' = IF dead THEN <<>> ELSE backlog
               /\ cpc' = [c \in C |-> IF dead /\ cpc[c] = "on" /\ (\E k \in 1 .. Len(backlog) : backlog[k] = <<"c", c>>) THEN "gone" ELSE cpc[c]]
            /\ spc' = [spc EXCEPT ![s] = "next0"]
            /\ UNCHANGED <<st, lock, wpc, wc, si, num, wait>>
Send(s) == /\ spc[s] = "next0"
           /\ IF si[s] > Cardinality(W) THEN spc' = [spc EXCEPT ![s] = "done"] /\ lock' = {} /\ UNCHANGED <<backlog, si>>
              ELSE IF Alive THEN backlog' = Append(backlog, <<"x", s>>) /\ spc' = [spc EXCEPT ![s] = "sent"] /\ UNCHANGED <<lock, si>>
              ELSE si' = [si EXCEPT ![s] = @ + 1] /\ UNCHANGED <<backlog, spc, lock>>
           /\ UNCHANGED <<st, wpc, wc, fd, cpc, num, wait>>
Nxt(s) == /\ spc[s] = "next" /\ si' = [si EXCEPT ![s] = @ + 1] /\ spc' = [spc EXCEPT ![s] = "next0"]
          /\ UNCHANGED <<st, lock, wpc, wc, fd, backlog, cpc, num, wait>>
Wait(x) == /\ wait[x] = "new" /\ lock = {}
           /\ wait' = [wait EXCEPT ![x] = IF st = "stopped" THEN "done" ELSE "wait"]
           /\ UNCHANGED <<st, lock, wpc, wc, fd, backlog, cpc, spc, si, num>>
Stop(s) == Close(s) \/ Send(s) \/ Nxt(s)
Next == \/ \E w \in W : Chk(w) \/ Enter(w) \/ Accept(w) \/ Serve(w) \/ Exit(w)
        \/ \E c \in C : Connect(c) \/ Leave(c)
        \/ \E s \in Stoppers : Lock(s) \/ Stop(s)
        \/ \E x \in Waiters : Wait(x)
Fair == /\ \A w \in W : WF_vars(Enter(w) \/ Serve(w)) /\ SF_vars(Chk(w)) /\ SF_vars(Exit(w)) /\ SF_vars(Accept(w))
        /\ \A c \in C : WF_vars(Leave(c))
        /\ \A s \in Stoppers : SF_vars(Lock(s)) /\ WF_vars(Stop(s))
        /\ \A x \in Waiters : SF_vars(Wait(x))
Spec == Init /\ [][Next]_vars /\ Fair

Inv == /\ (st = "stopped" => \A w \in W : wpc[w] = "done" /\ ~fd)
       /\ num = Cardinality({w \in W : wpc[w] # "done"})
       /\ \A x \in Waiters : wait[x] = "done" => st = "stopped"
\* while running, no worker ends
Serving == st = "run" => \A w \in W : wpc[w] # "done"
\* stop() returns, every worker ends, every waiter is let go
Ends == <>(/\ st = "stopped" /\ (\A w \in W : wpc[w] = "done")
           /\ (\A x \in Waiters : wait[x] = "done") /\ (\A s \in Stoppers : spc[s] = "done"))
=============================================================================
