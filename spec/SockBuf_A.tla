------------------------------ MODULE SockBuf_A ------------------------------
(***************************************************************************)
(* Design model of one direction of a socket: a writer with a user-space    *)
(* buffer of WB bytes, the kernel's pipe of K bytes, a reader with a buffer *)
(* of RB bytes.  The kernel may take or give any part of what is asked for  *)
(* and may lose the connection; the object may be connected again.  Bytes   *)
(* are <<connection, position>>.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS WB, RB, K, N, Conns
VARIABLES c,        \* number of the current connection
          att,      \* bytes accepted from the application
          wr, need, \* writer's buffer; bytes the running operation must still move
          flushing, \* the writer is flushing
          pipe, closed, \* in flight; no more will come
          rd, got,  \* reader's buffer; bytes handed to the application
          eof, lost
vars == <<c, att, wr, need, flushing, pipe, closed, rd, got, eof, lost>>
B(i) == <<c, i>>
Init == c = 1 /\ att = 0 /\ wr = <<>> /\ need = 0 /\ flushing = FALSE /\ pipe = <<>>
        /\ closed = FALSE /\ rd = <<>> /\ got = <<>> /\ eof = FALSE /\ lost = FALSE
\* the application hands over n bytes; they go through the buffer one by one
Write == /\ ~closed /\ need = 0 /\ ~flushing
         /\ \E n \in 1 .. 2 : att + n <= N /\ need' = n
         /\ UNCHANGED <<c, att, wr, flushing, pipe, closed, rd, got, eof, lost>>
Put == /\ need > 0 /\ ~flushing
       /\ IF Len(wr) < WB THEN wr' = Append(wr, B(att + 1)) /\ att' = att + 1 /\ need' = need - 1 /\ flushing' = flushing
          ELSE flushing' = TRUE /\ UNCHANGED <<wr, att, need>>
       /\ UNCHANGED <<c, pipe, closed, rd, got, eof, lost>>
Flush == /\ ~closed /\ need = 0 /\ ~flushing /\ wr # <<>> /\ flushing' = TRUE
         /\ UNCHANGED <<c, att, wr, need, pipe, closed, rd, got, eof, lost>>
\* send(): any non-empty part that fits, or interrupted (no change)
Send == /\ flushing
        /\ IF lost THEN flushing' = FALSE /\ closed' = TRUE /\ need' = 0 /\ wr' = <<>> /\ pipe' = pipe
           ELSE \E k \in 1 .. Len(wr) :
             /\ k <= K - Len(pipe)
             /\ pipe' = pipe \o SubSeq(wr, 1, k) /\ wr' = SubSeq(wr, k + 1, Len(wr))
             /\ flushing' = (wr' # <<>>) /\ UNCHANGED <<closed, need>>
        /\ UNCHANGED <<c, att, rd, got, eof, lost>>
\* flush, then close
Close == /\ ~closed /\ need = 0 /\ ~flushing /\ wr = <<>> /\ closed' = TRUE
         /\ UNCHANGED <<c, att, wr, need, flushing, pipe, rd, got, eof, lost>>
\* recv(): any non-empty part
Recv == /\ rd = <<>> /\ ~eof
        /\ \/ \E k \in 1 .. Len(pipe) : k <= RB /\ rd' = SubSeq(pipe, 1, k) /\ pipe' = SubSeq(pipe, k + 1, Len(pipe)) /\ eof' = eof
           \/ pipe = <<>> /\ (closed \/ lost) /\ eof' = TRUE /\ UNCHANGED <<rd, pipe>>
        /\ UNCHANGED <<c, att, wr, need, flushing, closed, got, lost>>
Read == /\ rd # <<>> /\ got' = Append(got, Head(rd)) /\ rd' = Tail(rd)
        /\ UNCHANGED <<c, att, wr, need, flushing, pipe, closed, eof, lost>>
Lose == /\ ~lost /\ lost' = TRUE /\ pipe' = <<>>
        /\ UNCHANGED <<c, att, wr, need, flushing, closed, rd, got, eof>>
\* both objects are connected again: nothing is carried over
Reconnect == /\ closed /\ eof /\ rd = <<>> /\ c < Conns
             /\ c' = c + 1 /\ att' = 0 /\ wr' = <<>> /\ need' = 0 /\ flushing' = FALSE /\ pipe' = <<>>
             /\ closed' = FALSE /\ got' = <<>> /\ eof' = FALSE /\ lost' = FALSE /\ rd' = <<>>
Next == Write \/ Put \/ Flush \/ Send \/ Close \/ Recv \/ Read \/ Lose \/ Reconnect
Spec == Init /\ [][Next]_vars /\ WF_vars(Put) /\ WF_vars(Send) /\ WF_vars(Recv) /\ WF_vars(Read)

All(k) == [i \in 1 .. k |-> B(i)]
\* what was accepted is, in order and without loss, read, buffered or under way
Conserve == ~lost => got \o rd \o pipe \o wr = All(att)
Prefix == \A i \in 1 .. Len(got) : got[i] = B(i)
EofAfterAll == (eof /\ ~lost) => Len(got) = att
Bounds == Len(wr) <= WB /\ Len(rd) <= RB /\ Len(pipe) <= K
Inv == Conserve /\ Prefix /\ EofAfterAll /\ Bounds
\* what is flushed gets read, or the loss is noticed
Arrives == (flushing => <>(wr = <<>> \/ closed)) /\ [](pipe # <<>> => <>(pipe = <<>>))
=============================================================================
