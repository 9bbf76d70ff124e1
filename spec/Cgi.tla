-------------------------------- MODULE Cgi --------------------------------
(***************************************************************************)
(* What a CGI program is given for a request: the fields of a form, sent as  *)
(* query string, urlencoded body or multipart body, and uploaded files; and  *)
(* what the stand-alone server answers.                                     *)
(***************************************************************************)
EXTENDS Str, TLC
U == INSTANCE Uri
H == INSTANCE Http
Pairs0 == [st |-> "ok", pairs |-> <<>>, files |-> <<>>]
Free == [st |-> "free", pairs |-> <<>>, files |-> <<>>]
Err == [st |-> "err", pairs |-> <<>>, files |-> <<>>]
\* urlencoded
EqAt(t) == MinOr({k \in 1 .. Len(t) : t[k] = 61}, 0)
Field(t) == LET p == EqAt(t) IN
            <<U!Dec(IF p = 0 THEN t ELSE SubSeq(t, 1, p - 1), 1), U!Dec(IF p = 0 THEN <<>> ELSE SubSeq(t, p + 1, Len(t)), 1)>>
Url(t) == IF t = <<>> THEN Pairs0
          ELSE LET f == SplitAt(t, <<38>>) IN
               IF (\E k \in DOMAIN t : t[k] = 0) \/ (\E k \in DOMAIN f : ~U!WellCoded(f[k], 1)) \/ \E k \in 1 .. Len(f) - 1 : f[k] = <<>> THEN Free
               ELSE [Pairs0 EXCEPT !.pairs = LET g == IF f[Len(f)] = <<>> THEN SubSeq(f, 1, Len(f) - 1) ELSE f IN [k \in 1 .. Len(g) |-> Field(g[k])]]
\* parameters  ; key=token  or  ; key="text"   from position i (at a ';' or the end): [ok, ps]
RECURSIVE Params(_, _, _), TokEnd(_, _)
TokEnd(t, i) == IF i <= Len(t) /\ t[i] \in H!TokC THEN TokEnd(t, i + 1) ELSE i
SkipB(t, i) == H!LTrimAt(t, i)
Params(t, i, ps) ==
  LET j == SkipB(t, i) IN
  IF j > Len(t) THEN [ok |-> TRUE, ps |-> ps]
  ELSE IF t[j] # 59 THEN [ok |-> FALSE, ps |-> ps]
  ELSE LET a == SkipB(t, j + 1) b == TokEnd(t, a) IN
       IF b = a \/ b > Len(t) \/ t[b] # 61 \/ b = Len(t) THEN [ok |-> FALSE, ps |-> ps]
       ELSE LET k == H!Low(SubSeq(t, a, b - 1)) IN
            IF \E q \in DOMAIN ps : ps[q][1] = k THEN [ok |-> FALSE, ps |-> ps]
            ELSE IF t[b + 1] = 34
            THEN LET c == MinOr({x \in (b + 2) .. Len(t) : t[x] = 34}, 0) IN
                 IF c = 0 \/ (\E x \in (b + 2) .. (c - 1) : t[x] = 92) THEN [ok |-> FALSE, ps |-> ps]
                 ELSE Params(t, c + 1, Append(ps, <<k, SubSeq(t, b + 2, c - 1)>>))
            ELSE LET c == TokEnd(t, b + 1) IN
                 IF c = b + 1 THEN [ok |-> FALSE, ps |-> ps]
                 ELSE Params(t, c, Append(ps, <<k, SubSeq(t, b + 1, c - 1)>>))
Has(ps, k) == \E q \in DOMAIN ps : ps[q][1] = k
Val(ps, k) == ps[CHOOSE q \in DOMAIN ps : ps[q][1] = k][2]
MainEnd(t) == MinOr({k \in 1 .. Len(t) : t[k] = 59}, Len(t) + 1)
kName == <<110,97,109,101>>
kFile == <<102,105,108,101,110,97,109,101>>
kBound == <<98,111,117,110,100,97,114,121>>
FormData == <<102,111,114,109,45,100,97,116,97>>
Attach == <<97,116,116,97,99,104,109,101,110,116>>
Multi == <<109,117,108,116,105,112,97,114,116,47>>
CD == <<99,111,110,116,101,110,116,45,100,105,115,112,111,115,105,116,105,111,110>>
CT == <<99,111,110,116,101,110,116,45,116,121,112,101>>
Dash == <<45, 45>>
\* boundary of a content type: [ok, b]
Boundary(ct) == LET p == Params(ct, MainEnd(ct), <<>>) IN
                [ok |-> p.ok /\ Has(p.ps, kBound) /\ Val(p.ps, kBound) # <<>>, b |-> IF p.ok /\ Has(p.ps, kBound) THEN Val(p.ps, kBound) ELSE <<>>]
\* next delimiter line from position i, 0: none
RECURSIVE NextD(_, _, _)
NextD(s, dl, i) == LET p == FindFrom(s, dl, i) IN IF p = 0 \/ p = 1 \/ s[p - 1] = 10 THEN p ELSE NextD(s, dl, p + 1)
Add(x, y) == IF x.st # "ok" THEN x ELSE IF y.st # "ok" THEN y ELSE [x EXCEPT !.pairs = @ \o y.pairs, !.files = @ \o y.files]
RECURSIVE MP(_, _), MParts(_, _, _, _)
Part(t) ==
  LET h == H!HeadAt(t, 1, <<>>) hs == h.hs
      body == SubSeq(t, h.nxt, Len(t))
      V(nm) == H!Trim(hs[CHOOSE k \in H!Named(hs, nm) : TRUE].v)
      N(nm) == Cardinality(H!Named(hs, nm))
      ct == IF N(CT) = 1 THEN V(CT) ELSE <<>>
      cd == IF N(CD) = 1 THEN V(CD) ELSE <<>>
      p == Params(cd, MainEnd(cd), <<>>) ty == SubSeq(cd, 1, MainEnd(cd) - 1)
  IN IF h.st # "ok" \/ N(CT) > 1 \/ N(CD) > 1 \/ (\E k \in DOMAIN hs : hs[k].fold) THEN Free
     ELSE IF Occurrences(ct, Multi, 1) # {} THEN (IF Starts(ct, Multi) /\ Boundary(ct).ok THEN MP(body, Boundary(ct).b) ELSE Free)
     ELSE IF cd = <<>> THEN Pairs0
     ELSE IF ~p.ok THEN Free
     ELSE IF ty = FormData THEN
       (IF ~Has(p.ps, kName) THEN Pairs0
        ELSE IF Has(p.ps, kFile) THEN [Pairs0 EXCEPT !.pairs = <<<<Val(p.ps, kName), Val(p.ps, kFile)>>>>, !.files = <<<<Val(p.ps, kFile), body, hs>>>>]
        ELSE [Pairs0 EXCEPT !.pairs = <<<<Val(p.ps, kName), body>>>>])
     ELSE IF ty = Attach THEN (IF Has(p.ps, kFile) THEN [Pairs0 EXCEPT !.files = <<<<Val(p.ps, kFile), body, hs>>>>] ELSE Free)
     ELSE IF \E k \in DOMAIN ty : ty[k] \notin H!TokC THEN Free
     ELSE IF H!CiEq(ty, FormData) \/ H!CiEq(ty, Attach) THEN Free ELSE Pairs0
\* at: position just after a delimiter
MParts(s, dl, at, acc) ==
  LET l == H!Line(s, at) tail == H!RT(IF l.ok THEN l.t ELSE SubSeq(s, at, Len(s)))
      q == NextD(s, dl, l.nxt)
      e == IF q >= 3 /\ s[q - 2] = 13 THEN q - 3 ELSE q - 2 IN
  IF Starts(tail, Dash) THEN acc
  ELSE IF tail # <<>> THEN Free
  ELSE IF ~l.ok \/ q = 0 THEN Add(acc, Err)           \* broken off
  ELSE IF q = l.nxt \/ e < l.nxt - 1 THEN Free
  ELSE MParts(s, dl, q + Len(dl), Add(acc, Part(SubSeq(s, l.nxt, e))))
MP(s, bd) == LET dl == Dash \o bd p == NextD(s, dl, 1) IN
             IF p = 0 THEN Err ELSE MParts(s, dl, p + Len(dl), Pairs0)

GET == <<71, 69, 84>>
POST == <<80, 79, 83, 84>>
\* the form of a request
Form(m, qs, ct, cl, body, max) ==
  IF m = GET THEN Url(qs)
  ELSE IF m # POST THEN Pairs0
  ELSE IF cl # <<>> /\ (~H!Dig(cl) \/ Len(cl) > 9) THEN Free
  ELSE LET n == IF cl = <<>> THEN 0 ELSE H!Num(cl) d == SubSeq(body, 1, n) IN
       IF n > max \/ n > Len(body) THEN Err
       ELSE IF Occurrences(ct, Multi, 1) = {} THEN Url(d)
       ELSE IF ~Starts(ct, Multi) THEN Free
       ELSE IF FindFrom(H!Low(ct), kBound, 1) = 0 THEN Err
       ELSE IF ~Boundary(ct).ok THEN Free ELSE MP(d, Boundary(ct).b)

Keys(ps) == {ps[k][1] : k \in DOMAIN ps}
LastOf(ps, x) == ps[MaxOr({k \in DOMAIN ps : ps[k][1] = x}, 0)]
AllOf(ps, x) == LET f == SelectSeq(ps, LAMBDA y : y[1] = x) IN [k \in 1 .. Len(f) |-> f[k][2]]
Rng(q) == {q[k] : k \in DOMAIN q}
\* q: the query map, m: the multi map, f: files, fi: their headers (all as lists of pairs)
Given(F, q, m, f, fi) ==
  /\ Len(q) = Cardinality(Keys(F.pairs)) /\ Rng(q) = {<<x, LastOf(F.pairs, x)[2]>> : x \in Keys(F.pairs)}
  /\ Len(m) = Len(q) /\ Rng(m) = {<<x, AllOf(F.pairs, x)>> : x \in Keys(F.pairs)}
  /\ Len(f) = Cardinality(Keys(F.files)) /\ Rng(f) = {<<x, LastOf(F.files, x)[2]>> : x \in Keys(F.files)}
  /\ Len(fi) = Len(f) /\ \A k \in DOMAIN fi : fi[k][1] \in Keys(F.files) /\ H!Shown(LastOf(F.files, fi[k][1])[3], fi[k][2])

Status == <<115,116,97,116,117,115>>
s500 == <<53, 48, 48>>
\* the output of a CGI program: header lines, blank line, body
Out(o) == H!HeadAt(o, 1, <<>>)
HdrIs(hs, nm, v) == \E k \in H!Named(hs, nm) : H!Trim(hs[k].v) = v
Failed(o) == LET h == Out(o) IN h.st = "ok" /\ \E k \in H!Named(h.hs, Status) : Starts(H!LT(h.hs[k].v), s500)
\* env: given e, seen s (pairs): nothing the client sent is changed
EnvOk(e, s) == \A k \in DOMAIN e : \E j \in DOMAIN s : s[j] = e[k]

kSt == <<115, 116>>
kLoc == <<108, 111, 99>>
kY == <<121>>
Plain(t) == \A k \in DOMAIN t : 32 <= t[k] /\ t[k] <= 126
\* the answer of the server to request bytes b; seen: what the program was given (<<>>: it did not run)
Served(b, o, seen, body) ==
  LET p == H!Parse(0, b) u == U!Parse(p.start[2]) path == u.parts[5] qs == u.parts[6]
      hs == p.head.hs
      V(nm) == IF H!Named(hs, nm) = {} THEN <<>> ELSE H!LT(hs[CHOOSE k \in H!Named(hs, nm) : TRUE].v)
      F == Form(p.start[1], qs, V(CT), V(H!CL), SubSeq(b, p.at, Len(b)), 5000)
      a == H!Parse(1, o)
      st == IF Has(F.pairs, kSt) /\ LastOf(F.pairs, kSt)[2] # <<>> THEN LastOf(F.pairs, kSt)[2] ELSE <<>>
  IN IF p.may \/ p.fr \notin {"close", "len"} THEN TRUE
     ELSE IF F.st = "free" THEN TRUE
     ELSE IF F.st = "err" THEN seen = <<>> /\ ((p.fr = "len" /\ H!Num(V(H!CL)) > Len(b) - p.at + 1 /\ o = <<>>) \/ (~a.may /\ a.start[1] = 500))
     ELSE IF st # <<>> /\ ~(Len(st) >= 3 /\ H!Dig(SubSeq(st, 1, 3)) /\ st[1] # 48 /\ (Len(st) >= 4 => st[4] = 32)) THEN seen # <<>>
     ELSE /\ seen # <<>> /\ seen[1] = p.start[1] /\ seen[2] = path /\ seen[3] = qs
          /\ Given(F, seen[4], seen[5], seen[6], seen[7])
          /\ ~a.may
          /\ st = <<>> => a.start[1] = (IF Has(F.pairs, kLoc) THEN 302 ELSE 200)
          /\ st # <<>> => a.start[1] = H!Num(SubSeq(st, 1, 3)) /\ H!RT(a.start[2]) = H!Trim(SubSeq(st, 4, Len(st)))
          /\ HdrIs(a.head.hs, <<120>>, <<49>>) /\ HdrIs(a.head.hs, CT, <<97, 47, 98>>)
          /\ LET y == IF Has(F.pairs, kY) THEN LastOf(F.pairs, kY)[2] ELSE <<1>> IN Plain(y) => HdrIs(a.head.hs, kY, H!Trim(y))
          /\ IF body = <<>> THEN a.fr \in {"close", "len"} /\ H!BodyOk(a, o, <<>>, <<>>) ELSE a.fr = "len" /\ H!BodyOk(a, o, body, <<>>)

CgiS0(h) == 0
CgiStep(s, e) ==
  LET ok ==
    CASE e.op = "form" ->
           LET F == Form(e.a[1], e.a[2], e.a[3], e.a[4], e.a[5], e.a[6]) IN
           /\ e.x = 0
           /\ F.st = "err" => e.r[1] = 0 /\ Failed(e.r[2])
           /\ F.st = "ok" => /\ e.r[1] = 1 /\ Given(F, e.r[3], e.r[4], e.r[5], e.r[6]) /\ EnvOk(e.a[7], e.r[7])
                             /\ LET h == Out(e.r[2]) IN h.st = "ok" /\ SubSeq(e.r[2], h.nxt, Len(e.r[2])) = e.a[8] /\ HdrIs(h.hs, <<120>>, <<49>>)
      [] e.op = "env" -> e.x = 0 /\ LET v == SelectSeq(e.a[1], LAMBDA t : EqAt(t) > 0) IN
                         \A k \in DOMAIN v : \E j \in k .. Len(v) :
                            /\ SubSeq(v[j], 1, EqAt(v[j])) = SubSeq(v[k], 1, EqAt(v[k]))
                            /\ \E i \in DOMAIN e.r[1] : e.r[1][i] = <<SubSeq(v[j], 1, EqAt(v[j]) - 1), SubSeq(v[j], EqAt(v[j]) + 1, Len(v[j]))>>
      [] e.op = "serve" -> e.x = 0 /\ Len(e.r[1]) = Len(e.a[1]) /\ \A k \in DOMAIN e.a[1] : Served(e.a[1][k], e.r[1][k], e.r[2][k], e.a[2])
      [] e.op = "deep" -> e.x = 0 /\ e.r[1] = 0
  IN IF ok THEN {s} ELSE {}
=============================================================================
