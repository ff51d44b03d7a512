---- MODULE Recyc ----
(* eckit::Recycler: a persistent stack of fixed-size records; several instances may be open on the same file *)
EXTENDS Naturals, Sequences
Init0(c) == [q |-> <<>>]
Min(a, b) == IF a < b THEN a ELSE b
Ok(q, v) == {[s |-> [q |-> q], r |-> <<"ok", v>>]}
Steps(s, e) ==
  CASE e.op = "push" -> Ok(s.q \o Tail(e.a), 0)
    [] e.op = "pop" -> LET n == Min(e.a[2], Len(s.q)) IN Ok(SubSeq(s.q, 1, Len(s.q) - n), SubSeq(s.q, Len(s.q) - n + 1, Len(s.q)))
    [] e.op = "pop1" -> IF s.q = <<>> THEN {[s |-> s, r |-> <<"none">>]} ELSE Ok(SubSeq(s.q, 1, Len(s.q) - 1), s.q[Len(s.q)])
    [] e.op = "reopen" -> Ok(s.q, 0)
    [] OTHER -> {}
Inv(s) == TRUE
I == 1..2
Ops(c, s) == {[op |-> "push", a |-> <<i, Len(s.q) + 1>>] : i \in I} \cup {[op |-> "push", a |-> <<1, 7, 8>>], [op |-> "push", a |-> <<2>>]}
      \cup {[op |-> "pop", a |-> <<i, n>>] : i \in I, n \in 0..4} \cup {[op |-> o, a |-> <<i>>] : o \in {"pop1", "reopen"}, i \in I}
Bound(c, s) == Len(s.q) <= 4
====
