---- MODULE FamMap ----
(* Maps in fabric-attached memory: for each of two maps, every key has the list of its values, the latest first. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Keys == 0..7
None == [k \in Keys |-> <<>>]
Init0(c) == [m |-> [x \in 0..1 |-> None], lk |-> [x \in 0..1 |-> 0]]
Ok(s, v) == {[s |-> s, r |-> <<"ok", v>>]}
RECURSIVE Sum(_, _)
Sum(m, k) == IF k < 0 THEN 0 ELSE Len(m[k]) + Sum(m, k - 1)
Size(m) == Sum(m, 7)
Tl(q) == IF q = <<>> THEN q ELSE Tail(q)
Steps(s, e) ==
  LET x == e.a[1]  m == s.m[e.a[1]]  k == e.a[2]  v == e.a[3]  q == m[k]
      Put(z) == [s EXCEPT !.m[x][k] = z]
      B(b) == IF b THEN 1 ELSE 0 IN
  CASE e.op = "insert" -> IF q = <<>> THEN Ok(Put(<<v>>), <<v, 1>>) ELSE Ok(s, <<q[1], 0>>)
    [] e.op = "assign" -> Ok(Put(<<v>> \o Tl(q)), <<v, B(q = <<>>)>>)
    [] e.op = "force" -> Ok(Put(<<v>> \o q), IF e.a[4] = 1 THEN 0 ELSE v)
    [] e.op = "erase" -> Ok(Put(<<>>), Len(q))
    [] e.op = "find" -> IF q = <<>> THEN {[s |-> s, r |-> <<"none">>]} ELSE Ok(s, q[1])
    [] e.op = "contains" -> Ok(s, B(q # <<>>))
    [] e.op = "count" -> Ok(s, Len(q))
    [] e.op = "size" -> Ok(s, Size(m))
    [] e.op = "empty" -> Ok(s, B(Size(m) = 0))
    [] e.op = "clear" -> Ok([s EXCEPT !.m[x] = None], 0)
    [] e.op = "merge" -> Ok([s EXCEPT !.m[x] = [y \in Keys |-> IF m[y] = <<>> /\ s.m[1 - x][y] # <<>> THEN <<s.m[1 - x][y][1]>> ELSE m[y]]], 0)
    [] e.op = "reopen" -> Ok(s, 0)
    [] e.op = "lock" -> IF s.lk[x] # 0 THEN {} ELSE Ok([s EXCEPT !.lk[x] = 1], 0)
    [] e.op = "unlock" -> Ok([s EXCEPT !.lk[x] = 0], 0)
    [] e.op = "list" -> Ok(s, [y \in 1..8 |-> m[y - 1]])
    [] OTHER -> {}
Inv(s) == \A x \in 0..1 : Size(s.m[x]) >= 0
E2(o, x, k, v) == [op |-> o, a |-> <<x, k, v, 0>>]
Ops(c, s) == {E2(o, 0, k, v) : o \in {"insert", "assign", "force"}, k \in {0, 1, 4}, v \in 1..2}
             \cup {E2("force", 1, k, 3) : k \in {1, 6}}
             \cup {E2(o, 0, k, 0) : o \in {"erase", "find", "contains", "count"}, k \in {0, 1, 4}}
             \cup {E2(o, 0, 0, 0) : o \in {"size", "empty", "clear", "merge", "reopen", "list"}}
Bound(c, s) == Size(s.m[0]) <= 2 /\ Size(s.m[1]) <= 1
====
