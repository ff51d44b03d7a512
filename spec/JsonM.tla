---- MODULE JsonM ----
(* reading and writing JSON: stateless *)
EXTENDS JsonText
Init0(c) == [x |-> 0]
R(s, r) == {[s |-> s, r |-> r]}
Unsure(t) == \E i \in 1..Len(t) : t[i] \in {0, 11, 12}
Steps(s, e) ==
  CASE e.op = "parse" -> LET p == Parse(e.a[1]) IN IF Unsure(e.a[1]) THEN R(s, <<"any">>) ELSE IF ~p.ok THEN R(s, <<"exc">>) ELSE IF p.any THEN R(s, <<"any">>) ELSE R(s, <<"tree", p.v>>)
    \* every JSON text is a YAML text for the same
    [] e.op = "yaml" -> LET p == Parse(e.a[1]) IN IF ~p.ok \/ p.any \/ Unsure(e.a[1]) THEN R(s, <<"any">>) ELSE R(s, <<"tree", p.v>>)
    \* the text written for the value a[1] is a[3]
    [] e.op = "write" -> LET p == Parse(e.a[3]) IN IF p.ok /\ ~p.any /\ Same2(e.a[1], p.v) THEN R(s, <<"ok", 0>>) ELSE {}
    \* and it is read back as
    [] e.op = "again" -> {[s |-> s, r |-> <<"ok", 0>>] : x \in IF Same2(e.a[1], e.a[3]) THEN {0} ELSE {}}
    [] OTHER -> {}
Inv(s) == TRUE
O(o, a) == [op |-> o, a |-> a]
RECURSIVE Strs(_, _)
Strs(al, n) == IF n = 0 THEN {<<>>} ELSE LET p == Strs(al, n - 1) IN p \cup {Append(q, b) : q \in {q \in p : Len(q) = n - 1}, b \in al}
Ops(c, s) == {O("parse", <<c.pre \o q \o c.post>>) : q \in Strs(c.al, c.n)} \cup (IF c.y = 1 THEN {O("yaml", <<c.pre \o q \o c.post>>) : q \in {q \in Strs(c.al, c.n) : Parse(c.pre \o q \o c.post).ok}} ELSE {})
Bound(c, s) == TRUE
====
