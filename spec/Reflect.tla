------------------------------- MODULE Reflect -------------------------------
(* Descriptions of types: terms <<1>> bool, <<2, signed, bytes>> integer,      *)
(* <<3>> float, <<4>> char, <<5, name, <<member name, term>> ...>> class.       *)
(* A description is built by entering and leaving classes; the state is the     *)
(* stack of classes entered, the innermost last: [nm, ms].                      *)
EXTENDS Str
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
sBool == <<98, 111, 111, 108>>
sInt == <<105, 110, 116>>
sFloat == <<102, 108, 111, 97, 116>>
sChar == <<99, 104, 97, 114>>
sClass == <<99, 108, 97, 115, 115>>
RECURSIVE Show(_), ShowMs(_, _), Nodes(_), NodesMs(_, _)
Show(t) == CASE t[1] = 1 -> sBool
             [] t[1] = 2 -> (IF t[2] = 1 THEN <<>> ELSE <<117>>) \o sInt \o <<40>> \o Dec(t[3]) \o <<41>>
             [] t[1] = 3 -> sFloat
             [] t[1] = 4 -> sChar
             [] t[1] = 5 -> sClass \o <<40>> \o t[2] \o <<41, 123>> \o ShowMs(t[3], 1) \o <<125>>
ShowMs(ms, i) == IF i > Len(ms) THEN <<>>
                 ELSE (IF i > 1 THEN <<44>> ELSE <<>>) \o Show(ms[i][2])
                      \o (IF ms[i][1] = <<>> THEN <<>> ELSE <<58>> \o ms[i][1]) \o ShowMs(ms, i + 1)
\* every type met, the class before its members, the members in order
Nodes(t) == <<t>> \o (IF t[1] = 5 THEN NodesMs(t[3], 1) ELSE <<>>)
NodesMs(ms, i) == IF i > Len(ms) THEN <<>> ELSE Nodes(ms[i][2]) \o NodesMs(ms, i + 1)
New == [nm |-> <<>>, ms |-> <<>>]
Class(c) == <<5, c.nm, c.ms>>
Enter(s) == Append(s, New)
Leave(s) == LET b == Front(s) IN [b EXCEPT ![Len(b)].ms = Append(@, <<<<>>, Class(s[Len(s)])>>)]
Rename(s, n) == [s EXCEPT ![Len(s)].nm = n]
AddM(s, n, t) == [s EXCEPT ![Len(s)].ms = Append(@, <<n, t>>)]
\* what a description r = <<printed, printed nodes, structure by accessors>> says of t
Says(r, t) == /\ r[1] = Show(t) /\ r[3] = t
              /\ LET n == Nodes(t) IN Len(r[2]) = Len(n) /\ \A i \in 1 .. Len(n) : r[2][i] = Show(n[i])
ReflectS0(h) == <<New>>
ReflectStep(s, e) ==
  LET on(c, n) == IF e.x = 0 /\ c THEN {n} ELSE {} IN
  CASE e.op = "new"   -> on(TRUE, <<New>>)
    [] e.op = "enter" -> on(TRUE, Enter(s))
    [] e.op = "leave" -> on(TRUE, Leave(s))
    [] e.op = "name"  -> on(TRUE, Rename(s, e.a[1]))
    [] e.op = "add"   -> on(TRUE, AddM(s, e.a[1], e.a[2]))
    [] e.op = "get"   -> on(Says(e.r, s[Len(s)].ms[1][2]), s)
    [] e.op = "type"  -> on(Says(e.r, e.a[2]), s)                 \* a declared type
    \* a class of remote methods: name, version, methods <<name, result, arguments>> in order of their names
    [] e.op = "rpc"   -> on(/\ e.r[1] = e.a[2] /\ e.r[2] = e.a[3] /\ Len(e.r[3]) = Len(e.a[4])
                            /\ \A i \in 1 .. Len(e.a[4]) : LET m == e.a[4][i] g == e.r[3][i] IN
                                 /\ g[1] = m[1] /\ Says(g[2], m[2]) /\ Len(g[3]) = Len(m[3])
                                 /\ \A k \in 1 .. Len(m[3]) : Says(g[3][k], m[3][k]), s)
=============================================================================
