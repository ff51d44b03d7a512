---- MODULE DSet ----
(* eckit::DenseSet: values in insertion order; sorted and without duplicates once sort() was called (or inserted in strictly increasing order) *)
EXTENDS Naturals, Sequences, FiniteSets
Init0(c) == [v |-> <<>>, srt |-> TRUE]
Rng(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j IN <<k>> \o Asc(S \ {k})
Ins(s, x) == [v |-> Append(s.v, x), srt |-> s.srt /\ (IF s.v = <<>> THEN TRUE ELSE x > s.v[Len(s.v)])]
RECURSIVE InsAll(_, _)
InsAll(s, q) == IF q = <<>> THEN s ELSE InsAll(Ins(s, Head(q)), Tail(q))
Exc(s) == {[s |-> s, r |-> <<"exc">>]}
Ok(s, v) == {[s |-> s, r |-> <<"ok", v>>]}
Idx(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Steps(s, e) ==
  LET x == IF Len(e.a) > 0 THEN e.a[1] ELSE 0
      usable == s.v = <<>> \/ s.srt IN
  CASE e.op = "insert" -> Ok(Ins(s, x), 0)
    [] e.op = "sort" -> Ok([v |-> IF s.srt THEN s.v ELSE Asc(Rng(s.v)), srt |-> TRUE], 0)
    [] e.op = "clear" -> Ok([v |-> <<>>, srt |-> TRUE], 0)
    [] e.op = "size" -> Ok(s, Len(s.v))
    [] e.op = "sorted" -> Ok(s, IF s.srt THEN 1 ELSE 0)
    [] e.op = "empty" -> Ok(s, IF s.v = <<>> THEN 1 ELSE 0)
    [] e.op = "contains" -> IF ~usable THEN Exc(s) ELSE Ok(s, IF x \in Rng(s.v) THEN 1 ELSE 0)
    [] e.op = "find" -> IF ~usable THEN Exc(s) ELSE Ok(s, IF x \in Rng(s.v) THEN Idx(s.v, x) ELSE 0)
    [] e.op = "at" -> IF x < Len(s.v) THEN Ok(s, s.v[x + 1]) ELSE Exc(s)
    [] e.op = "list" -> Ok(s, s.v)
    [] e.op \in {"merge", "mergesorted"} ->
         LET o0 == InsAll(Init0(0), e.a)
             o == IF e.op = "merge" THEN o0 ELSE [v |-> Asc(Rng(e.a)), srt |-> TRUE] IN
         IF o.v = <<>> THEN Ok(s, 0) ELSE IF s.v = <<>> THEN Ok(o, 0)
         ELSE IF ~s.srt \/ ~o.srt THEN Exc(s) ELSE Ok([v |-> Asc(Rng(s.v) \cup Rng(o.v)), srt |-> TRUE], 0)
    [] e.op \in {"eq"} -> Ok(s, IF InsAll(Init0(0), e.a).v = s.v THEN 1 ELSE 0)
    [] OTHER -> {}
Inv(s) == s.srt => \A i, j \in 1..Len(s.v) : i < j => s.v[i] < s.v[j]
K == 0..3
Lists == {<<>>} \cup {<<x>> : x \in K} \cup {<<x, y>> : x, y \in K}
Ops(c, s) == {[op |-> o, a |-> <<k>>] : o \in {"insert", "contains", "find", "at"}, k \in K}
      \cup {[op |-> o, a |-> <<>>] : o \in {"sort", "clear", "size", "sorted", "empty", "list"}}
      \cup {[op |-> o, a |-> q] : o \in {"merge", "mergesorted", "eq"}, q \in Lists}
Bound(c, s) == Len(s.v) <= 3
====
