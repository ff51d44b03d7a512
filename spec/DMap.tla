---- MODULE DMap ----
(* eckit::DenseMap: a log of insertions until sort(), after which the last value of each key remains, in key order *)
EXTENDS Naturals, Sequences, FiniteSets
Init0(c) == [it |-> <<>>, srt |-> TRUE]
Keys(it) == {it[i][1] : i \in 1..Len(it)}
LastOf(it, k) == LET i == CHOOSE i \in 1..Len(it) : it[i][1] = k /\ \A j \in i + 1..Len(it) : it[j][1] # k IN it[i][2]
RECURSIVE Sorted(_, _)
Sorted(it, ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE k \in ks : \A j \in ks : k <= j IN <<<<k, LastOf(it, k)>>>> \o Sorted(it, ks \ {k})
Exc(s) == {[s |-> s, r |-> <<"exc">>]}
Ok(s, v) == {[s |-> s, r |-> <<"ok", v>>]}
Pos(it, k) == CHOOSE i \in 1..Len(it) : it[i][1] = k
Steps(s, e) ==
  LET k == IF Len(e.a) > 0 THEN e.a[1] ELSE 0
      has == k \in Keys(s.it)
      ins == [it |-> Append(s.it, <<k, IF Len(e.a) > 1 THEN e.a[2] ELSE 0>>), srt |-> FALSE]
      usable == s.it = <<>> \/ s.srt IN
  CASE e.op = "insert" -> Ok(ins, 0)
    [] e.op = "replace" -> IF ~usable THEN Exc(s) ELSE IF has THEN Ok([s EXCEPT !.it[Pos(s.it, k)] = <<k, e.a[2]>>], 0) ELSE Ok(ins, 0)
    [] e.op = "sort" -> Ok([it |-> IF s.srt THEN s.it ELSE Sorted(s.it, Keys(s.it)), srt |-> TRUE], 0)
    [] e.op = "clear" -> Ok([it |-> <<>>, srt |-> TRUE], 0)
    [] e.op = "size" -> IF s.srt THEN Ok(s, Len(s.it)) ELSE Exc(s)
    [] e.op = "sorted" -> Ok(s, IF s.srt THEN 1 ELSE 0)
    [] e.op = "empty" -> Ok(s, IF s.it = <<>> THEN 1 ELSE 0)
    [] e.op = "contains" -> IF ~usable THEN Exc(s) ELSE Ok(s, IF has THEN 1 ELSE 0)
    [] e.op = "get" -> IF ~usable THEN Exc(s) ELSE IF has THEN Ok(s, s.it[Pos(s.it, k)][2]) ELSE {[s |-> s, r |-> <<"none">>]}
    [] e.op = "at" -> IF k < Len(s.it) THEN Ok(s, s.it[k + 1][2]) ELSE Exc(s)
    [] e.op = "list" -> Ok(s, s.it)
    [] OTHER -> {}
Inv(s) == s.srt => \A i, j \in 1..Len(s.it) : i < j => s.it[i][1] < s.it[j][1]
K == 1..3
Ops(c, s) == {[op |-> o, a |-> <<k, v>>] : o \in {"insert", "replace"}, k \in K, v \in 0..1} \cup {[op |-> o, a |-> <<k>>] : o \in {"contains", "get", "at"}, k \in 0..3}
      \cup {[op |-> o, a |-> <<>>] : o \in {"sort", "clear", "size", "sorted", "empty", "list"}}
Bound(c, s) == Len(s.it) <= 3
====
