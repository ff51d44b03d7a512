---- MODULE Circ ----
(* eckit::CircularBuffer: a byte FIFO that grows by multiples of its increment up to a capacity *)
EXTENDS Naturals, Sequences
Init0(c) == [q |-> <<>>, size |-> c.size, inc |-> c.size, cap |-> c.cap]
Min(a, b) == IF a < b THEN a ELSE b
Up(n, m) == ((n + m - 1) \div m) * m
Ok(s, v) == {[s |-> s, r |-> <<"ok", v>>]}
Steps(s, e) ==
  CASE e.op = "write" ->
         LET n == Len(e.a) IN
         IF n <= s.size - Len(s.q) THEN Ok([s EXCEPT !.q = @ \o e.a], n)
         ELSE LET z == Up(s.size + n, s.inc) IN
              IF z > s.cap THEN {[s |-> s, r |-> <<"exc">>]} ELSE Ok([s EXCEPT !.q = @ \o e.a, !.size = z], n)
    [] e.op = "read" -> LET n == Min(e.a[1], Len(s.q)) IN Ok([s EXCEPT !.q = SubSeq(@, n + 1, Len(@))], SubSeq(s.q, 1, n))
    [] e.op = "length" -> Ok(s, Len(s.q))
    [] e.op = "size" -> Ok(s, s.size)
    [] e.op = "capacity" -> Ok(s, s.cap)
    [] e.op = "clear" -> Ok([s EXCEPT !.q = <<>>], 0)
    [] OTHER -> {}
Inv(s) == Len(s.q) <= s.size /\ s.size <= s.cap
Ops(c, s) == {[op |-> "write", a |-> [i \in 1..n |-> (Len(s.q) + i) % 3]] : n \in 0..3} \cup {[op |-> "read", a |-> <<n>>] : n \in 0..4}
      \cup {[op |-> o, a |-> <<>>] : o \in {"length", "size", "capacity", "clear"}}
Bound(c, s) == TRUE
====
