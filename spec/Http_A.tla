------------------------------- MODULE Http_A -------------------------------
(* The message format itself, over all small bodies, chunkings and truncations: *)
(* a chunked or length-framed body followed by any bytes is recovered exactly,  *)
(* with what follows left; any truncation gives an error or a prefix.           *)
EXTENDS Http
CONSTANTS MaxBody, MaxRest, Bytes
VARIABLES b, cut, rest
HexD(n) == IF n < 10 THEN <<48 + n>> ELSE <<87 + n>>
CRLF == <<13, 10>>
\* all ways of cutting a body in chunks, as sets of cut positions
RECURSIVE Pieces(_, _, _)
Pieces(t, i, C) == IF i > Len(t) THEN <<>> ELSE
   LET e == MinOr({c \in C : c >= i}, Len(t)) IN HexD(e - i + 1) \o CRLF \o SubSeq(t, i, e) \o CRLF \o Pieces(t, e + 1, C)
Enc(t, C) == Pieces(t, 1, C) \o <<48>> \o CRLF \o CRLF
Stat == <<72,84,84,80,47,49,46,49,32,50,48,48,32,79,75,13,10>>
MsgC(t, C, r) == Stat \o TE \o <<58, 32>> \o Chunked \o CRLF \o CRLF \o Enc(t, C) \o r
MsgL(t, r) == Stat \o CL \o <<58, 32>> \o HexD(Len(t)) \o CRLF \o CRLF \o t \o r
Init == /\ b \in Strings(Bytes, MaxBody) /\ rest \in Strings(Bytes, MaxRest) /\ cut \in SUBSET (1 .. MaxBody)
Next == UNCHANGED <<b, cut, rest>>
Spec == Init /\ [][Next]_<<b, cut, rest>>
Good(m, t, r) == LET p == Parse(1, m) IN ~p.may /\ p.start = <<200, <<79, 75>>, <<1, 1>>>> /\ BodyOk(p, m, t, r)
                 /\ \A u \in {<<>>, Append(t, 0), SubSeq(t, 1, Len(t) - 1)} : u # t => ~BodyOk(p, m, u, r)
Inv == LET C == {c \in cut : c < Len(b)} m == MsgC(b, C, rest) w == MsgL(b, rest) IN
       /\ Good(m, b, rest) /\ Good(w, b, rest)
       /\ \A k \in 0 .. Len(m) - Len(rest) - 1 :
            LET x == SubSeq(m, 1, k) p == Parse(1, x) IN
            p.must \/ p.head.st = "lflost" \/ (p.fr = "chunked" /\ Chunks(x, p.at, <<>>).st = "cut" /\ IsPrefix(Chunks(x, p.at, <<>>).body, b))
       /\ \A k \in 0 .. Len(w) - Len(rest) - 1 :
            LET x == SubSeq(w, 1, k) p == Parse(1, x) IN p.must \/ p.head.st = "lflost" \/ (p.fr = "len" /\ BodyOk(p, x, SubSeq(x, p.at, k), <<>>))
=============================================================================
