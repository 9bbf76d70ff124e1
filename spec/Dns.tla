-------------------------------- MODULE Dns --------------------------------
(***************************************************************************)
(* A cache of name resolutions: key -> [id of the resolution (0: it failed), *)
(* second of its last use, second it was made].  A lookup is two atomic      *)
(* steps around the resolution itself: Look (hit or miss) and Keep.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(e, cur, life) == cur - e.made < life
Drop(c, ks) == [k \in (DOMAIN c \ ks) |-> c[k]]
\* [hit, id, c]
Look(c, key, cur, life) ==
  IF key \in DOMAIN c /\ Fresh(c[key], cur, life)
  THEN [hit |-> TRUE, id |-> c[key].id, c |-> [c EXCEPT ![key].used = cur]]
  ELSE [hit |-> FALSE, id |-> 0, c |-> Drop(c, {key})]
\* the caches after keeping a resolution: the least recently used make room
Oldest(c) == {k \in DOMAIN c : \A j \in DOMAIN c : c[k].used <= c[j].used}
Keep(c, key, id, m, u, cap) ==
  LET d == Drop(c, {key}) e == (key :> [id |-> id, used |-> u, made |-> m]) IN
  IF cap <= 0 THEN {<<>>}
  ELSE IF Cardinality(DOMAIN d) < cap THEN {d @@ e}
  ELSE {Drop(d, {k}) @@ e : k \in Oldest(d)}
=============================================================================
