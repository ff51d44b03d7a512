---- MODULE KdM ----
(* k-d trees: a collection of points, the i-th one carrying payload i.  Searches give the nearest points, in order of distance; their
   results are the last argument of the event and judged here, as points at the same distance may come in any order. *)
EXTENDS Integers, Sequences, FiniteSets
\* kind "mem" or "map" (in a file of c.cap places)
Init0(c) == [p |-> <<>>, dim |-> c.dim, cap |-> c.cap, kind |-> c.kind, ro |-> FALSE]
R(s, r) == {[s |-> s, r |-> r]}
Ok(s) == R(s, <<"ok", 0>>)
Sq(x) == x * x
D(s, q, i) == LET p == s.p[i] IN Sq(q[1] - p[1]) + Sq(q[2] - p[2]) + (IF s.dim = 3 THEN Sq(q[3] - p[3]) ELSE 0)
Range(q) == {q[i] : i \in 1..Len(q)}
\* distinct points of the tree
Proper(s, l) == Range(l) \subseteq 1..Len(s.p) /\ Cardinality(Range(l)) = Len(l)
Sorted(s, q, l) == \A i \in 1..(Len(l) - 1) : D(s, q, l[i]) <= D(s, q, l[i + 1])
Min(a, b) == IF a < b THEN a ELSE b
Nearest(s, q, k, l) == /\ Proper(s, l) /\ Len(l) = Min(k, Len(s.p)) /\ Sorted(s, q, l)
                       /\ l # <<>> => \A i \in (1..Len(s.p)) \ Range(l) : D(s, q, i) >= D(s, q, l[Len(l)])
Judge(s, b) == IF b THEN Ok(s) ELSE {}
Steps(s, e) ==
  LET a == e.a IN
  CASE e.op = "build" -> IF s.p # <<>> \/ a[1] = <<>> THEN R(s, <<"any">>) ELSE Ok([s EXCEPT !.p = a[1]])
    [] e.op = "ins" -> IF s.ro THEN R(s, <<"exc">>) ELSE Ok([s EXCEPT !.p = Append(@, a[1])])
    [] e.op = "nn" -> IF s.p = <<>> THEN R(s, <<"any">>) ELSE Judge(s, Nearest(s, a[1], 1, a[2]))
    [] e.op = "knn" -> IF s.p = <<>> THEN R(s, <<"any">>) ELSE Judge(s, Nearest(s, a[1], a[2], a[3]))
    [] e.op = "ball" -> IF s.p = <<>> THEN R(s, <<"any">>) ELSE Judge(s, Proper(s, a[3]) /\ Sorted(s, a[1], a[3]) /\ Range(a[3]) = {i \in 1..Len(s.p) : a[2] >= 0 /\ D(s, a[1], i) <= a[2] * a[2]})
    [] e.op = "iter" -> IF s.p = <<>> /\ s.ro THEN R(s, <<"any">>) ELSE Judge(s, Proper(s, a[1]) /\ Len(a[1]) = Len(s.p))
    [] e.op = "size" -> IF s.ro /\ Len(s.p) < s.cap THEN R(s, <<"any">>) ELSE Judge(s, a[1] = Len(s.p))
    [] e.op = "reopen" -> Ok(IF s.kind = "map" THEN [s EXCEPT !.ro = TRUE] ELSE s)
    [] e.op = "meta" -> Ok(s)
    [] OTHER -> {}
Inv(s) == Len(s.p) <= s.cap
O(o, a) == [op |-> o, a |-> a]
Pts(c) == IF c.dim = 2 THEN {<<x, y>> : x, y \in 0..c.g} ELSE {<<x, y, z>> : x, y, z \in 0..c.g}
\* (searches are added to every state by the check)
Ops(c, s) == IF s.ro THEN {} ELSE {O("ins", <<p>>) : p \in {p \in Pts(c) : Len(s.p) < c.max}} \cup (IF c.kind = "map" /\ Len(s.p) > 0 THEN {O("reopen", <<>>)} ELSE {})
Bound(c, s) == TRUE
====
