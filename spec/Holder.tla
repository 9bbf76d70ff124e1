------------------------------- MODULE Holder -------------------------------
(* Value holders: optional (o), any (a), shared_ptr (s), weak_ptr (w) and      *)
(* scoped_ptr (p) slots.  Objects owned through pointers have an identity      *)
(* (index into v, their present values).                                       *)
EXTENDS Str
N == 1 .. 3
None == <<>>
HolderS0(h) == [o |-> [k \in N |-> None], a |-> [k \in N |-> None], s |-> [k \in N |-> 0], w |-> [k \in N |-> 0],
                p |-> [k \in N |-> 0], v |-> <<>>]
\* any: <<type, value>> with type 0 int, 1 string, 2 object
Owned(st) == {st.s[k] : k \in N} \cup {st.p[k] : k \in N}
Alive(st, i) == i # 0 /\ i \in Owned(st)
Live(st) == Cardinality({k \in N : st.o[k] # None}) + Cardinality({k \in N : st.a[k] # None /\ st.a[k][1] = 2}) + Cardinality(Owned(st) \ {0})
Cnt(st, i) == Cardinality({k \in N : st.s[k] = i})
PV(st, i) == IF i = 0 THEN <<0, 0, 0>> ELSE <<1, st.v[i], i>>
Dump(st) == << [k \in N |-> st.o[k]], [k \in N |-> st.a[k]],
               [k \in N |-> IF st.s[k] = 0 THEN <<0, 0, 0, 0>> ELSE PV(st, st.s[k]) \o <<Cnt(st, st.s[k])>>],
               [k \in N |-> IF Alive(st, st.w[k]) THEN PV(st, st.w[k]) ELSE <<0, 0, 0>>],
               [k \in N |-> PV(st, st.p[k])], Live(st), 0 >>
Lt(x, y) == IF x = None THEN y # None ELSE y # None /\ x[1] < y[1]
Res(ok, n) == IF ok THEN {n} ELSE {}
New(st, val) == [st EXCEPT !.v = Append(st.v, val)]
Do(st, e) ==
  LET i == e.a[1] j == e.a[2] id == Len(st.v) + 1 IN
  CASE e.op \in {"oset", "oconv", "ovalue"} -> {[st EXCEPT !.o[i] = <<j>>]}
    [] e.op \in {"oreset", "oconvnone"} -> {[st EXCEPT !.o[i] = None]}
    [] e.op \in {"oassign", "ocopy"} -> {[st EXCEPT !.o[i] = st.o[j]]}
    [] e.op = "oswap" -> {[st EXCEPT !.o[i] = st.o[j], !.o[j] = st.o[i]]}
    [] e.op = "opoke" -> {IF st.o[i] = None THEN st ELSE [st EXCEPT !.o[i] = <<j>>]}
    [] e.op = "ocmp" -> LET x == st.o[i] y == st.o[j] IN
                        Res(e.r[1] = <<Bit(x = y), Bit(x # y), Bit(Lt(x, y)), Bit(Lt(y, x)), Bit(~Lt(y, x)), Bit(~Lt(x, y))>>, st)
    [] e.op = "aset" -> {[st EXCEPT !.a[i] = <<e.a[3], j>>]}
    [] e.op = "areset" -> {[st EXCEPT !.a[i] = None]}
    [] e.op \in {"aassign", "acopy"} -> {[st EXCEPT !.a[i] = st.a[j]]}
    [] e.op = "aswap" -> {[st EXCEPT !.a[i] = st.a[j], !.a[j] = st.a[i]]}
    [] e.op = "acast" -> Res(e.r[1] = (IF st.a[i] # None /\ st.a[i][1] = j THEN <<1, st.a[i][2]>> ELSE <<0, 0>>), st)
    [] e.op = "snew" -> {[New(st, j) EXCEPT !.s[i] = id]}
    [] e.op = "sassign" -> {[st EXCEPT !.s[i] = st.s[j]]}
    [] e.op = "sreset" -> {[st EXCEPT !.s[i] = 0]}
    [] e.op = "sswap" -> {[st EXCEPT !.s[i] = st.s[j], !.s[j] = st.s[i]]}
    [] e.op = "spoke" -> {IF st.s[i] = 0 THEN st ELSE [st EXCEPT !.v[st.s[i]] = j]}
    [] e.op = "sself" -> {IF st.s[j] = 0 THEN st ELSE [st EXCEPT !.s[i] = st.s[j]]}          \* shared_from_this
    [] e.op = "scast" -> {IF e.a[3] = 1 THEN [st EXCEPT !.s[i] = 0] ELSE [st EXCEPT !.s[i] = st.s[j]]}   \* casts; 1: dynamic cast to an unrelated type
    [] e.op = "wset" -> {[st EXCEPT !.w[i] = st.s[j]]}
    [] e.op = "wassign" -> {[st EXCEPT !.w[i] = st.w[j]]}
    [] e.op = "wreset" -> {[st EXCEPT !.w[i] = 0]}
    [] e.op = "wlock" -> {[st EXCEPT !.s[i] = IF Alive(st, st.w[j]) THEN st.w[j] ELSE 0]}
    [] e.op = "wctor" -> IF Alive(st, st.w[j]) THEN Res(e.r[1] = 1, [st EXCEPT !.s[i] = st.w[j]])
                         ELSE Res(e.r[1] = 0, st)                                            \* bad_weak_ptr
    [] e.op = "pnew" -> {[New(st, j) EXCEPT !.p[i] = id]}
    [] e.op = "preset" -> {[st EXCEPT !.p[i] = 0]}
    [] e.op = "pswap" -> {[st EXCEPT !.p[i] = st.p[j], !.p[j] = st.p[i]]}
    [] e.op = "pself" -> Res(e.r[1] = 0, st)      \* shared_from_this of an object no shared pointer owns: bad_weak_ptr
    [] e.op = "ppoke" -> {IF st.p[i] = 0 THEN st ELSE [st EXCEPT !.v[st.p[i]] = j]}
    [] OTHER -> {}
\* a copy of the object threw: nothing changed (only if the driver armed a throw)
HolderStep(st, e) ==
  IF e.op = "end" THEN (IF e.r = <<0, 0>> THEN {st} ELSE {})
  ELSE LET d == e.r[Len(e.r)]
           after == IF e.x = 0 THEN Do(st, e) ELSE IF e.x = 1 /\ e.a[Len(e.a)] > 0 THEN {st} ELSE {}
       IN {n \in after : Dump(n) = d}
=============================================================================
