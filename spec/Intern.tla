------------------------------ MODULE Intern ------------------------------
(* pfi::data::intern; two objects o[1], o[2], each the list of its keys in   *)
(* order of first appearance (the id of a key is its index from 0).          *)
EXTENDS Str
InternS0(h) == <<<<>>, <<>>>>
Idx(q, k) == MinOr({i \in 1 .. Len(q) : q[i] = k}, 0)
InternStep(s, e) ==
  LET w == e.a[1] q == s[w] k == e.a[2] i == Idx(q, k)
      res(n, r) == IF e.x = 0 /\ e.r = r THEN {n} ELSE {} IN
  CASE e.op = "key2id"  -> IF i > 0 THEN res(s, <<i - 1>>) ELSE res([s EXCEPT ![w] = Append(q, k)], <<Len(q)>>)
    [] e.op = "peek"    -> res(s, <<i - 1>>)          \* key2id(k, false)
    [] e.op = "nogen"   -> res(s, <<i - 1>>)          \* key2id_nogen(k)
    [] e.op = "exkey"   -> res(s, <<Bit(i > 0)>>)
    [] e.op = "exid"    -> res(s, <<Bit(e.a[3] >= 0 /\ e.a[3] < Len(q))>>)
    [] e.op = "id2key"  -> res(s, <<q[e.a[3] + 1]>>)   \* asked for existing ids only
    [] e.op = "size"    -> res(s, <<Len(q), Bit(q = <<>>)>>)
    [] e.op = "clear"   -> res([s EXCEPT ![w] = <<>>], <<>>)
    [] e.op = "swap"    -> res(<<s[2], s[1]>>, <<>>)
    [] e.op = "copy"    -> res([s EXCEPT ![3 - w] = q], <<>>)
    [] e.op = "ser"     -> res([s EXCEPT ![3 - w] = q], <<>>)   \* written from w, read into the other
    \* keys k.0, k.1, .. put into a fresh object a, b = a read back from its serialized form: sizes, any id or key that is
    \* not its number's (none), size again, n and n - 1 known?
    [] e.op = "bulk"    -> res(s, <<e.a[3], e.a[3], e.a[3], 0, 1>>)
    [] e.op = "all"     -> res(s, <<q>>)                \* id2key(0), id2key(1), ...
=============================================================================
