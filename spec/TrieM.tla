---- MODULE TrieM ----
(* eckit::Trie: a dictionary keyed by (NUL-free) strings *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Init0(c) == [m |-> [x \in {} |-> 0]]
Ok(m, v) == {[s |-> [m |-> m], r |-> <<"ok", v>>]}
Steps(s, e) ==
  LET k == IF Len(e.a) > 0 THEN e.a[1] ELSE ""
      has == k \in DOMAIN s.m IN
  CASE e.op = "insert" -> Ok((k :> e.a[2]) @@ s.m, 0)
    [] e.op = "remove" -> Ok([x \in DOMAIN s.m \ {k} |-> s.m[x]], 0)
    [] e.op = "contains" -> Ok(s.m, IF has THEN 1 ELSE 0)
    [] e.op = "find" -> IF has THEN Ok(s.m, s.m[k]) ELSE {[s |-> s, r |-> <<"none">>]}
    [] OTHER -> {}
Inv(s) == TRUE
K == {"", "a", "ab", "abc", "b", "ba"}
Ops(c, s) == {[op |-> "insert", a |-> <<k, v>>] : k \in K, v \in 0..1} \cup {[op |-> o, a |-> <<k>>] : o \in {"remove", "contains", "find"}, k \in K}
Bound(c, s) == \A k \in DOMAIN s.m : (k \in {"b", "ba", ""} => s.m[k] = 0)
====
