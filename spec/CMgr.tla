---- MODULE CMgr ----
(* eckit::CacheManager: a file-system cache over a list of roots. An entry exists completely or not at all, in the first root that has it; a missing entry is made by
   one creator at a time and published by rename. With a maximum size, creating an entry evicts the least recently used others until the total fits. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
\* c.w: which roots are writable (1/0); c.max: maximum size, 0 for none; c.lock: 1 if a missing entry has one creator at a time; c.miss: 1 if a miss is an error
Init0(c) == [f |-> [x \in {} |-> <<0, 0>>], lru |-> <<>>, w |-> c.w, max |-> c.max, lock |-> c.lock, miss |-> c.miss]
R(s) == 1..Len(s.w)
In(s, r, k) == <<r, k>> \in DOMAIN s.f
Roots(s, k) == {r \in R(s) : In(s, r, k)}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Writable(s) == {r \in R(s) : s.w[r] = 1}
Touch(s, k) == [s EXCEPT !.lru = IF s.max = 0 THEN @ ELSE Append(SelectSeq(@, LAMBDA x : x # k), k)]
Set(f, k, v) == (k :> v) @@ f
Size(s, k) == s.f[<<1, k>>][2]
RECURSIVE Total(_, _)
Total(s, q) == IF q = <<>> THEN 0 ELSE Size(s, Head(q)) + Total(s, Tail(q))
RECURSIVE Evict(_, _)
Evict(s, need) == IF need <= 0 \/ s.lru = <<>> THEN s ELSE
   LET k == Head(s.lru) IN Evict([s EXCEPT !.lru = Tail(@), !.f = [x \in DOMAIN @ \ {<<1, k>>} |-> @[x]]], IF need > Size(s, k) THEN need - Size(s, k) ELSE 0)
Fit(s, size) == LET t == Total(s, s.lru) + size IN IF s.max = 0 \/ t <= s.max THEN s ELSE Evict(s, t - s.max)
Made(s, k, id, size) == LET r == First(Writable(s))
                            t == Fit(s, size) IN Touch([t EXCEPT !.f = Set(@, <<r, k>>, <<id, size>>)], k)
\* get: key, how the creator behaves (0 creates, 1 creates and saves, 2 fails), identity and size of what it creates
Get(s, k, m, id, size) ==
  IF Roots(s, k) # {} THEN
     {[s |-> Touch(s, k), r |-> <<"loaded", s.f[<<First(Roots(s, k)), k>>][1]>>]}
     \cup (IF s.lock = 0 /\ m < 2 THEN {[s |-> Made(s, k, id, size), r |-> <<"created", id>>]} ELSE {})
     \cup (IF s.lock = 0 /\ m = 2 THEN {[s |-> s, r |-> <<"fail">>]} ELSE {})
  ELSE IF s.miss = 1 \/ Writable(s) = {} THEN {[s |-> s, r |-> <<"miss">>]}
  ELSE IF m = 2 THEN {[s |-> s, r |-> <<"fail">>]}
  ELSE {[s |-> Made(s, k, id, size), r |-> <<"created", id>>]}
Keys(s) == {x[2] : x \in DOMAIN s.f}
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
List(s) == LET q == SetToSortSeq(DOMAIN s.f, Less) IN [i \in 1..Len(q) |-> <<q[i][1], q[i][2], s.f[q[i]][1]>>]
Steps(s, e) ==
  CASE e.op = "get" -> Get(s, e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.op = "crash" -> {[s |-> t, r |-> <<"crashed">>] : t \in {s} \cup {o.s : o \in Get(s, e.a[3], e.a[4], e.a[5], e.a[6])}} \cup Get(s, e.a[3], e.a[4], e.a[5], e.a[6])
    [] e.op = "plant" -> {[s |-> [s EXCEPT !.f = Set(@, <<e.a[1], e.a[2]>>, <<e.a[3], 10>>)], r |-> <<"ok", 0>>]}
    [] e.op = "list" -> {[s |-> s, r |-> <<"ok", List(s)>>]}
    [] e.op = "reopen" -> {[s |-> s, r |-> <<"ok", 0>>]}
    [] OTHER -> {}
\* the total stays within the maximum, except for a single entry that is itself larger
Inv(s) == s.max > 0 => /\ {s.lru[i] : i \in 1..Len(s.lru)} = Keys(s)
                       /\ (Total(s, s.lru) <= s.max \/ Len(s.lru) = 1)
K == 1..3
SizeOf(k) == 10 * k
Ops(c, s) == {[op |-> "get", a |-> <<k, m, 10 * k + m, SizeOf(k)>>] : k \in K, m \in 0..2} \cup {[op |-> "list", a |-> <<>>], [op |-> "reopen", a |-> <<>>]}
  \cup (IF c.max > 0 THEN {} ELSE {[op |-> "crash", a |-> <<n, 0, k, m, 10 * k + 5, 10>>] : n \in {3, 6}, k \in {1}, m \in 0..2}
                                  \cup {[op |-> "plant", a |-> <<r, k, 90 + r>>] : r \in 1..Len(c.w), k \in {1}})
Bound(c, s) == TRUE
====
