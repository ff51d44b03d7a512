---- MODULE BTreeM ----
(* eckit::BTree, an ordered map in a file.  m is what the handle that has it open sees; d the contents the file may stand for if that handle
   vanishes now: as of the last flush, or with any number of the modifications made since (pages go out in an order of their own choice only at
   flush, which is why a tree whose process dies in between is as of some moment since then).
   x, y: the lock held on the file through flock() and through lock(). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0(c) == [on |-> "no", m |-> <<>>, d |-> {<<>>}, x |-> "none", y |-> "none", lk |-> c.lk]
\* a map is the sequence of its pairs in key order
Below(m, k) == Cardinality({i \in 1..Len(m) : m[i][1] < k})
Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Put(m, k, v) == LET i == Below(m, k) IN SubSeq(m, 1, i) \o <<<<k, v>>>> \o SubSeq(m, i + 1 + (IF Has(m, k) THEN 1 ELSE 0), Len(m))
Range(m, a, b) == SelectSeq(m, LAMBDA p : a <= p[1] /\ p[1] <= b)
R(s, r) == {[s |-> s, r |-> r]}
Ok(s, v) == R(s, <<"ok", v>>)
\* these take and release the range lock themselves: what that leaves of a lock taken before is not specified
U(s) == IF s.y = "none" THEN s ELSE [s EXCEPT !.y = "any"]
B(b) == IF b THEN 1 ELSE 0
Steps(s, e) ==
  CASE e.op = "open" -> IF s.on # "no" THEN {} ELSE IF e.a[1] = "ro" THEN UNION {Ok([s EXCEPT !.on = "ro", !.m = v, !.d = {v}], 0) : v \in s.d}
       ELSE IF e.a[1] = "rw" THEN UNION {Ok([s EXCEPT !.on = "rw", !.m = v, !.d = {v}], 0) : v \in s.d} ELSE {}
    [] s.on = "no" -> {}
    [] e.op = "set" -> IF s.on # "rw" THEN {} ELSE LET n == Put(s.m, e.a[1], e.a[2]) IN Ok([U(s) EXCEPT !.m = n, !.d = @ \cup {n}], B(Has(s.m, e.a[1])))
    [] e.op = "get" -> R(U(s), IF Has(s.m, e.a[1]) THEN <<"ok", s.m[Below(s.m, e.a[1]) + 1][2]>> ELSE <<"none">>)
    [] e.op = "range" -> Ok(U(s), Range(s.m, e.a[1], e.a[2]))
    [] e.op = "count" -> Ok(U(s), Len(s.m))
    [] e.op = "flush" -> Ok([s EXCEPT !.d = {s.m}], 0)
    [] e.op = "sync" -> IF s.on # "rw" THEN {} ELSE Ok(s, 0)
    [] e.op = "preload" -> Ok(s, 0)
    \* what another handle, opened now on what is in the file, sees
    [] e.op = "view" -> UNION {Ok(s, v) : v \in s.d}
    [] e.op = "close" -> IF s.x # "none" \/ s.y # "none" THEN {} ELSE Ok([s EXCEPT !.on = "no", !.d = {s.m}], 0)
    [] e.op = "die" -> Ok([s EXCEPT !.on = "no", !.x = "none", !.y = "none"], 0)
    \* locks
    [] e.op = "flock" -> Ok([s EXCEPT !.x = IF s.on = "rw" THEN "ex" ELSE "sh"], 0)
    [] e.op = "funlock" -> Ok([s EXCEPT !.x = "none"], 0)
    [] e.op = "lock" -> IF s.lk = 0 THEN {} ELSE Ok([s EXCEPT !.y = IF s.on = "rw" THEN "ex" ELSE "sh"], 0)
    [] e.op = "lockshared" -> IF s.lk = 0 THEN {} ELSE Ok([s EXCEPT !.y = "sh"], 0)
    [] e.op = "unlock" -> IF s.lk = 0 THEN {} ELSE Ok([s EXCEPT !.y = "none"], 0)
    \* what other processes could lock: flock, and the range lock
    [] e.op = "held" -> UNION {Ok(s, <<s.x, y>>) : y \in IF s.y = "any" THEN {"none", "sh", "ex"} ELSE {s.y}}
    [] OTHER -> {}
Asc(m) == \A i, j \in 1..Len(m) : i < j => m[i][1] < m[j][1]
Inv(s) == (\A v \in s.d : Asc(v)) /\ Asc(s.m) /\ (s.on # "no" => s.m \in s.d)
O(o, a) == [op |-> o, a |-> a]
Ops(c, s) ==
  IF s.on = "no" THEN {O("open", <<"rw">>)} \cup (IF s.d # {<<>>} THEN {O("open", <<"ro">>)} ELSE {})
  ELSE {O("get", <<k>>) : k \in c.ks} \cup {O("range", <<a, b>>) : a \in {1, 3}, b \in {2, 5}} \cup {O(o, <<>>) : o \in {"count", "close"}}
       \cup (IF s.on = "rw" THEN {O(o, <<>>) : o \in {"flush", "view", "die"}} \cup {O("set", <<k, v>>) : k \in c.ks, v \in {1, 2} \cap 1..c.v} ELSE {})
       \cup (IF c.lk = 1 THEN {O(o, <<>>) : o \in {"flock", "funlock", "lock", "lockshared", "unlock", "held"}} ELSE {})
Bound(c, s) == Cardinality(s.d) <= 3
====
