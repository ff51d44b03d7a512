---- MODULE Lru ----
(* eckit::CacheLRU: q is the recency order, most recent first; every result carries the entries handed to the purge callback, in order *)
EXTENDS Naturals, Sequences, FiniteSets
Init0(c) == [cap |-> c.cap, q |-> <<>>]
Has(q, k) == \E i \in 1..Len(q) : q[i][1] = k
At(q, k) == CHOOSE i \in 1..Len(q) : q[i][1] = k
Drop(q, k) == SelectSeq(q, LAMBDA x : x[1] # k)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* entries beyond the capacity leave from the least recent end
Trim(q, cap) == [q |-> SubSeq(q, 1, IF Len(q) < cap THEN Len(q) ELSE cap), out |-> IF Len(q) <= cap THEN <<>> ELSE Rev(SubSeq(q, cap + 1, Len(q)))]
R(s, q, v, out) == {[s |-> [s EXCEPT !.q = q], r |-> <<"ok", <<v, out>>>>]}
Steps(s, e) ==
  LET k == IF Len(e.a) > 0 THEN e.a[1] ELSE 0 IN
  CASE e.op = "insert" -> LET t == Trim(<<<<k, e.a[2]>>>> \o Drop(s.q, k), s.cap) IN R(s, t.q, IF Has(s.q, k) THEN 1 ELSE 0, t.out)
    [] e.op = "access" -> IF Has(s.q, k) THEN R(s, <<s.q[At(s.q, k)]>> \o Drop(s.q, k), s.q[At(s.q, k)][2], <<>>)
                          ELSE {[s |-> s, r |-> <<"exc">>]}
    [] e.op = "extract" -> IF Has(s.q, k) THEN R(s, Drop(s.q, k), s.q[At(s.q, k)][2], <<>>) ELSE {[s |-> s, r |-> <<"exc">>]}
    [] e.op = "remove" -> IF Has(s.q, k) THEN R(s, Drop(s.q, k), 1, <<s.q[At(s.q, k)]>>) ELSE R(s, s.q, 0, <<>>)
    [] e.op = "exists" -> R(s, s.q, IF Has(s.q, k) THEN 1 ELSE 0, <<>>)
    [] e.op = "size" -> R(s, s.q, Len(s.q), <<>>)
    [] e.op = "getcap" -> R(s, s.q, s.cap, <<>>)
    [] e.op = "clear" -> R(s, <<>>, 0, s.q)
    [] e.op = "setcap" -> LET t == Trim(s.q, k) IN {[s |-> [cap |-> k, q |-> t.q], r |-> <<"ok", <<0, t.out>>>>]}
    [] e.op = "destroy" -> R(s, <<>>, 0, s.q)
    [] OTHER -> {}
Inv(s) == Len(s.q) <= s.cap /\ \A i, j \in 1..Len(s.q) : s.q[i][1] = s.q[j][1] => i = j
K == 1..3
Ops(c, s) == {[op |-> "insert", a |-> <<k, v>>] : k \in K, v \in 0..1} \cup {[op |-> o, a |-> <<k>>] : o \in {"access", "extract", "remove", "exists"}, k \in K}
      \cup {[op |-> o, a |-> <<>>] : o \in {"size", "getcap", "clear"}} \cup {[op |-> "setcap", a |-> <<n>>] : n \in 0..3}
Bound(c, s) == TRUE
====
