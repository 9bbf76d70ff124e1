------------------------------- MODULE Cgi_A -------------------------------
(* Any names and contents are recovered from their encodings: urlencoded       *)
(* pairs, and multipart bodies over every content that does not contain the     *)
(* delimiter.                                                                   *)
EXTENDS Cgi
CONSTANTS Bytes, MaxLen
VARIABLES a, b
Init == a \in Strings(Bytes, MaxLen) /\ b \in Strings(Bytes, MaxLen)
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
CRLF == <<13, 10>>
Bd == <<88>>
Disp == <<67,111,110,116,101,110,116,45,68,105,115,112,111,115,105,116,105,111,110,58,32>> \o FormData \o <<59, 32>> \o kName \o <<61, 34>>
OnePart(nm, c) == Dash \o Bd \o CRLF \o Disp \o nm \o <<34>> \o CRLF \o CRLF \o c \o CRLF
Body == OnePart(<<110>>, a) \o OnePart(<<109>>, b) \o Dash \o Bd \o Dash
Clean(c) == Occurrences(CRLF \o c \o CRLF, <<10>> \o Dash \o Bd, 1) = {}
Url2 == U!Enc(a) \o <<61>> \o U!Enc(b) \o <<38>> \o U!Enc(b) \o <<61>> \o U!Enc(a)
Inv == /\ Url(Url2).pairs = <<<<a, b>>, <<b, a>>>>
       /\ (Clean(a) /\ Clean(b)) => MP(Body, Bd) = [Pairs0 EXCEPT !.pairs = <<<<<<110>>, a>>, <<<<109>>, b>>>>]
=============================================================================
