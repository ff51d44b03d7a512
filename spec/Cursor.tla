---- MODULE Cursor ----
(* Readers of pooled files share what is open underneath, and nothing else: each is a cursor of its own over the file. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a, b) == IF a < b THEN a ELSE b
Files == 0..2
Size(f) == CASE f = 0 -> 40 [] f = 1 -> 3 [] f = 2 -> 7
Byte(f, i) == (f + i * 7 + i \div 5) % 256
Objs == 0..5
\* k: "no", or the kind of the reader; the file 2 does not exist before it is created
No == [k |-> "no", f |-> 0, on |-> FALSE, p |-> 0]
Init0(c) == [o |-> [x \in Objs |-> No], made |-> FALSE]
Ok(s, v) == {[s |-> s, r |-> <<"ok", v>>]}
Steps(s, e) ==
  LET x == e.a[1]  q == s.o[x]  Set(v) == [s EXCEPT !.o[x] = v]  n == Size(q.f) IN
  CASE e.op = "new" -> IF q.k # "no" THEN {} ELSE Ok(Set([No EXCEPT !.k = e.a[2], !.f = e.a[3]]), 0)
    [] e.op = "del" -> IF q.k = "no" \/ q.on THEN {} ELSE Ok(Set(No), 0)
    [] e.op = "create" -> Ok([s EXCEPT !.made = TRUE], 0)
    [] q.k = "no" -> {}
    [] e.op = "open" -> IF q.on THEN {} ELSE IF q.f = 2 /\ ~s.made THEN {[s |-> s, r |-> <<"err">>]} ELSE Ok(Set([q EXCEPT !.on = TRUE, !.p = 0]), IF q.k = "PH" THEN n ELSE 0)
    [] ~q.on -> {}
    [] e.op = "close" -> Ok(Set([q EXCEPT !.on = FALSE, !.p = 0]), 0)
    [] e.op = "read" -> LET m == Min(e.a[2], n - q.p) IN Ok(Set([q EXCEPT !.p = @ + m]), [i \in 1..m |-> Byte(q.f, q.p + i)])
    [] e.op = "seek" -> Ok(Set([q EXCEPT !.p = e.a[2]]), e.a[2])
    [] e.op = "end" -> IF q.k = "PH" THEN {} ELSE Ok(Set([q EXCEPT !.p = n]), n)
    [] e.op = "pos" -> IF q.k # "PH" THEN {} ELSE Ok(s, q.p)
    [] OTHER -> {}
Inv(s) == \A x \in Objs : s.o[x].p \in 0..Size(s.o[x].f) /\ (s.o[x].p # 0 => s.o[x].on)
O(o, a) == [op |-> o, a |-> a]
\* exhaustively: two readers of one file, one of another
Ops(c, s) == UNION {LET q == s.o[x] IN
    IF q.k = "no" THEN {O("new", <<x, c.k[x + 1], c.f[x + 1]>>)}
    ELSE IF ~q.on THEN {O("del", <<x>>), O("open", <<x>>)}
    ELSE {O("close", <<x>>), O("read", <<x, 2>>)} \cup (IF q.k = "PH" THEN {O("pos", <<x>>)} ELSE {O("end", <<x>>)})
         \cup {O("seek", <<x, 1>>)} : x \in 0..(Len(c.k) - 1)}
  \cup (IF 2 \in {c.f[i] : i \in 1..Len(c.f)} /\ ~s.made THEN {O("create", <<0>>)} ELSE {})
Bound(c, s) == TRUE
Ks == {<<"PF", "PF">>, <<"PH", "PH">>, <<"PF", "PH">>, <<"PD", "PF">>}
Confs == {[k |-> k, f |-> f] : k \in Ks, f \in {<<1, 1>>, <<2, 2>>}} \cup {[k |-> <<"PF", "PF", "PF">>, f |-> <<1, 2, 1>>]}
====
