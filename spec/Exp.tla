---- MODULE Exp ----
(* eckit::Cache: entries with an expired mark *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Init0(c) == [m |-> [x \in {} |-> 0]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
B(b) == IF b THEN 1 ELSE 0
R(s, m, v) == {[s |-> [m |-> m], r |-> <<"ok", v>>]}
Steps(s, e) ==
  LET k == IF Len(e.a) > 0 THEN e.a[1] ELSE 0
      has == k \in DOMAIN s.m
      live == IF has THEN ~s.m[k].x ELSE FALSE
      new(v) == (k :> [v |-> v, x |-> FALSE]) @@ s.m IN
  CASE e.op = "insert" -> IF live THEN R(s, s.m, 0) ELSE R(s, new(e.a[2]), 1)
    [] e.op = "update" -> R(s, new(e.a[2]), B(has))
    [] e.op = "fetch"  -> IF live THEN R(s, s.m, s.m[k].v) ELSE {[s |-> s, r |-> <<"none">>]}
    [] e.op = "expire" -> IF has THEN R(s, [s.m EXCEPT ![k].x = TRUE], 1) ELSE R(s, s.m, 0)
    [] e.op = "valid"  -> R(s, s.m, B(live))
    [] e.op = "size"   -> R(s, s.m, Cardinality(DOMAIN s.m))
    [] e.op = "purge"  -> R(s, Without(s.m, {x \in DOMAIN s.m : s.m[x].x}), 0)
    [] e.op = "clear"  -> R(s, [x \in {} |-> 0], 0)
    [] OTHER -> {}
Inv(s) == TRUE
K == 1..3
Ops(c, s) == {[op |-> o, a |-> <<k, v>>] : o \in {"insert", "update"}, k \in K, v \in 0..1} \cup {[op |-> o, a |-> <<k>>] : o \in {"fetch", "expire", "valid"}, k \in K}
      \cup {[op |-> o, a |-> <<>>] : o \in {"size", "purge", "clear"}}
Bound(c, s) == TRUE
====
