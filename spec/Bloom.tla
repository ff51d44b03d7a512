---- MODULE Bloom ----
(* eckit::BloomFilter: no false negatives; false positives allowed *)
EXTENDS Naturals, Sequences
Init0(c) == [in |-> {}]
Steps(s, e) ==
  CASE e.op = "insert" -> {[s |-> [in |-> s.in \cup {e.a[1]}], r |-> <<"ok", 0>>]}
    [] e.op = "contains" -> {[s |-> s, r |-> <<"ok", 1>>]} \cup (IF e.a[1] \in s.in \/ s.in = {} THEN {} ELSE {[s |-> s, r |-> <<"ok", 0>>]})
                            \cup (IF s.in = {} THEN {[s |-> s, r |-> <<"ok", 0>>]} ELSE {})
    [] e.op = "empty" -> {[s |-> s, r |-> <<"ok", IF s.in = {} THEN 1 ELSE 0>>]}
    [] OTHER -> {}
Inv(s) == TRUE
Ops(c, s) == {}
Bound(c, s) == TRUE
====
