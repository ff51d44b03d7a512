---- MODULE FamList ----
(* A doubly linked list in fabric-attached memory used by several clients: a sequence. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0(c) == [q |-> <<>>]
Ok(s, v) == {[s |-> s, r |-> <<"ok", v>>]}
Exc(s) == {[s |-> s, r |-> <<"exc">>]}
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Cut(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Steps(s, e) ==
  LET q == s.q n == Len(s.q) IN
  CASE e.op = "pushFront" -> Ok([s EXCEPT !.q = <<e.a[1]>> \o q], 0)
    [] e.op = "pushBack" -> Ok([s EXCEPT !.q = Append(q, e.a[1])], 0)
    [] e.op = "popFront" -> IF n = 0 THEN Exc(s) ELSE Ok([s EXCEPT !.q = Tail(q)], 0)
    [] e.op = "popBack" -> IF n = 0 THEN Exc(s) ELSE Ok([s EXCEPT !.q = SubSeq(q, 1, n - 1)], 0)
    [] e.op = "front" -> IF n = 0 THEN Exc(s) ELSE Ok(s, q[1])
    [] e.op = "back" -> IF n = 0 THEN Exc(s) ELSE Ok(s, q[n])
    [] e.op = "size" -> Ok(s, n)
    [] e.op = "empty" -> Ok(s, IF n = 0 THEN 1 ELSE 0)
    [] e.op = "list" -> Ok(s, q)
    [] e.op = "rlist" -> Ok(s, Rev(q))
    [] e.op = "erase" -> IF e.a[1] >= n THEN {[s |-> s, r |-> <<"none">>]}
                         ELSE Ok([s EXCEPT !.q = Cut(q, e.a[1] + 1)], IF e.a[1] + 1 = n THEN -1 ELSE q[e.a[1] + 2])
    [] e.op = "eraseend" -> Exc(s)
    [] e.op = "clear" -> Ok([s EXCEPT !.q = <<>>], 0)
    [] e.op = "reopen" -> Ok(s, 0)
    [] OTHER -> {}
Inv(s) == Len(s.q) >= 0
E2(o, a) == [op |-> o, a |-> a]
Ops(c, s) == {E2(o, <<v>>) : o \in {"pushFront", "pushBack"}, v \in {Len(s.q) + 1}}
             \cup {E2(o, <<>>) : o \in {"popFront", "popBack", "front", "back", "size", "empty", "list", "rlist", "eraseend", "clear"}}
             \cup {E2("erase", <<k>>) : k \in 0..3} \cup {E2("reopen", <<k>>) : k \in 0..1}
Bound(c, s) == Len(s.q) <= 4
====
