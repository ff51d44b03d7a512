---- MODULE DigestM ----
(* eckit::Hash: a digest is that of the bytes added since the object was made or reset, in however many pieces, and whatever was asked of the object before.
   A digest stands here for the bytes it is the digest of (the check maps the one to the other with the definitions of the algorithms).
   With the algorithms of which this is so (c.once) more can be added after a digest was asked for only once the object was reset: these histories are left out.
   h[k]: bytes added to object k; asked[k]: its digest was asked for. *)
EXTENDS Integers, Sequences, FiniteSets
Init0(c) == [h |-> [k \in 1..c.n |-> <<>>], asked |-> [k \in 1..c.n |-> FALSE]]
Steps(s, e) ==
  LET a == e.a k == a[1] IN
  CASE e.op = "new" -> {[s |-> [s EXCEPT !.h[k] = a[2], !.asked[k] = FALSE], r |-> <<"ok">>]}
    [] e.op = "add" -> {[s |-> [s EXCEPT !.h[k] = @ \o a[2]], r |-> <<"ok">>]}
    [] e.op = "reset" -> {[s |-> [s EXCEPT !.h[k] = <<>>, !.asked[k] = FALSE], r |-> <<"ok">>]}
    [] e.op = "number" -> {[s |-> s, r |-> <<"ok", s.h[k]>>]}
    [] e.op \in {"digest", "text"} -> {[s |-> [s EXCEPT !.asked[k] = TRUE], r |-> <<"ok", s.h[k]>>]}
    \* of other bytes, at once
    [] e.op = "compute" -> {[s |-> s, r |-> <<"ok", a[2]>>]}
Inv(s) == TRUE
O(p, a) == [op |-> p, a |-> a]
Texts == {<<97>>, <<98, 99>>, <<>>}
Free(c, s, k) == ~(c.once /\ s.asked[k])
Ops(c, s) == UNION {(IF Free(c, s, k) THEN {O("add", <<k, t>>) : t \in Texts} \cup {O("number", <<k>>)} ELSE {}) \cup {O("compute", <<k, t>>) : t \in Texts} \cup {O("new", <<k, <<97>>>>)} \cup {O(p, <<k>>) : p \in {"digest", "text", "reset"}} : k \in 1..c.n}
Bound(c, s) == \A k \in 1..c.n : Len(s.h[k]) <= c.len
====
