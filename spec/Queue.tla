---- MODULE Queue ----
(* eckit::Queue<T>: a bounded FIFO shared by threads.  One action per critical section of Queue.h.
   A call whose Steps set is empty blocks until another call changes the state. *)
EXTENDS Naturals, Sequences

\* s.sent / s.got: history used by the invariant only in the exhaustive model (bounded there)
Init0(c) == [q |-> <<>>, max |-> c.max, closed |-> FALSE, intr |-> FALSE]

Min(a, b) == IF a < b THEN a ELSE b

Push(s, v) ==
  IF s.intr THEN {[s |-> s, r |-> <<"intr">>]}
  ELSE IF Len(s.q) >= s.max THEN {}
  ELSE IF s.closed THEN {[s |-> s, r |-> <<"exc">>]}
  ELSE {[s |-> [s EXCEPT !.q = Append(@, v)], r |-> <<"ok", Len(s.q) + 1>>]}

Pop(s) ==
  IF s.intr THEN {[s |-> s, r |-> <<"intr">>]}
  ELSE IF s.q = <<>> THEN IF s.closed THEN {[s |-> s, r |-> <<"closed">>]} ELSE {}
  ELSE {[s |-> [s EXCEPT !.q = Tail(@)], r |-> <<"ok", <<Head(s.q), Len(s.q) - 1>>>>]}

PopN(s, n) ==
  IF s.intr THEN {[s |-> s, r |-> <<"intr">>]}
  ELSE IF s.q = <<>> THEN IF s.closed THEN {[s |-> s, r |-> <<"closed">>]} ELSE {}
  ELSE LET k == Min(n, Len(s.q)) IN
       {[s |-> [s EXCEPT !.q = SubSeq(@, k + 1, Len(@))], r |-> <<"ok", SubSeq(s.q, 1, k)>>]}

Resize(s, n) ==
  IF n = 0 THEN {[s |-> s, r |-> <<"exc">>]}
  ELSE IF s.intr THEN {[s |-> s, r |-> <<"intr">>]}
  ELSE IF Len(s.q) > n THEN {}
  ELSE IF s.closed THEN {[s |-> s, r |-> <<"exc">>]}
  ELSE {[s |-> [s EXCEPT !.max = n], r |-> <<"ok">>]}

Steps(s, e) ==
  CASE e.op \in {"push", "emplace"} -> Push(s, e.a[1])
    [] e.op = "pop"       -> Pop(s)
    [] e.op = "popn"      -> PopN(s, e.a[1])
    [] e.op = "resize"    -> Resize(s, e.a[1])
    [] e.op = "close"     -> {[s |-> [s EXCEPT !.closed = TRUE], r |-> <<"ok">>]}
    [] e.op = "interrupt" -> {[s |-> [s EXCEPT !.intr = TRUE], r |-> <<"ok">>]}
    [] e.op = "closed"    -> {[s |-> s, r |-> <<"ok", s.closed \/ s.intr>>]}
    [] e.op = "empty"     -> {[s |-> s, r |-> <<"ok", s.q = <<>>>>]}
    [] OTHER -> {}

\* never more elements than the capacity in force
Inv(s) == Len(s.q) <= s.max

Ops(c, s) == {[op |-> "push", a |-> <<v>>] : v \in 1..2}
       \cup {[op |-> "emplace", a |-> <<3>>]}
       \cup {[op |-> o, a |-> <<>>] : o \in {"pop", "close", "interrupt", "closed", "empty"}}
       \cup {[op |-> "popn", a |-> <<n>>] : n \in 0..3}
       \cup {[op |-> "resize", a |-> <<n>>] : n \in 0..3}
Bound(c, s) == TRUE
====
