---- MODULE Csv_A ----
(* Writing any rows with any (needed or free) quoting and line ends gives a  *)
(* text that denotes them.                                                   *)
EXTENDS Csv, TLC
Fields == Strings({97, 34, 44, 10, 13}, 2)
Q(f) == <<34>> \o ReplaceIn(f, <<34>>, <<34, 34>>) \o <<34>>
Plainable(f) == \A k \in 1 .. Len(f) : f[k] \notin {34, 44, 10, 13}
VARIABLES txt, rows
Init == txt = <<>> /\ rows = <<>>
Texts(f) == {Q(f)} \cup (IF Plainable(f) THEN {f} ELSE {})
Next == Len(rows) < 2 /\ \E r \in (IF rows = <<>> THEN Fields \X Fields ELSE {<<f, g>> : f \in {<<>>, <<97>>, <<34>>, <<10>>}, g \in {<<>>, <<13>>}}) :
          \E a \in Texts(r[1]), b \in Texts(r[2]), nl \in {<<10>>, <<13, 10>>} :
             txt' = txt \o a \o <<44>> \o b \o nl /\ rows' = Append(rows, r)
Spec == Init /\ [][Next]_<<txt, rows>>
Inv == /\ Rows(txt, 1) = rows
       /\ (txt # <<>>) => LET n == IF Ends(txt, <<13, 10>>) THEN 2 ELSE 1 cut == SubSeq(txt, 1, Len(txt) - n)
                          IN Rows(cut, 1) = rows        \* the last line end is optional
====
