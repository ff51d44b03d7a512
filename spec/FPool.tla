---- MODULE FPool ----
(* eckit::FilePool: files checked out by at most one user at a time; idle handles cached in LRU order.
   disk[p] is the sequence of records in the file now at path p (gen counts its re-creations); a handle keeps the generation it opened. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Init0(c) == [use |-> [x \in {} |-> 0], q |-> <<>>, cap |-> c.cap, gen |-> [x \in {} |-> 0], disk |-> [x \in {} |-> <<>>], gone |-> {}]
Has(q, p) == \E i \in 1..Len(q) : q[i][1] = p
At(q, p) == CHOOSE i \in 1..Len(q) : q[i][1] = p
Drop(q, p) == SelectSeq(q, LAMBDA x : x[1] # p)
Trim(q, cap) == SubSeq(q, 1, IF Len(q) < cap THEN Len(q) ELSE cap)
Ok(s, v) == {[s |-> s, r |-> <<"ok", v>>]}
Known(s, p) == p \in DOMAIN s.gen
OnDisk(s, p) == Known(s, p) /\ p \notin s.gone
InUse(s, p) == p \in DOMAIN s.use
Without(f, p) == [x \in DOMAIN f \ {p} |-> f[x]]
Steps(s, e) ==
  LET p == IF Len(e.a) > 0 THEN e.a[1] ELSE 0 IN
  CASE e.op = "checkout" ->
        IF InUse(s, p) THEN {}
        ELSE IF Has(s.q, p) /\ OnDisk(s, p) THEN Ok([s EXCEPT !.use = (p :> s.q[At(s.q, p)][2]) @@ @, !.q = Drop(@, p)], 0)
        ELSE IF OnDisk(s, p) THEN Ok([s EXCEPT !.use = (p :> s.gen[p]) @@ @, !.q = Drop(@, p)], 0)
        ELSE LET g == IF Known(s, p) THEN s.gen[p] + 1 ELSE 1 IN
             Ok([s EXCEPT !.use = (p :> g) @@ @, !.q = Drop(@, p), !.gen = (p :> g) @@ @, !.disk = (p :> <<>>) @@ @, !.gone = @ \ {p}], 0)
    [] e.op = "put" -> IF ~InUse(s, p) THEN {}
                       ELSE IF s.use[p] = s.gen[p] /\ OnDisk(s, p) THEN Ok([s EXCEPT !.disk[p] = Append(@, e.a[2])], 0) ELSE Ok(s, 0)
    [] e.op = "checkin" -> IF ~InUse(s, p) THEN {}
                           ELSE Ok([s EXCEPT !.q = Trim(<<<<p, s.use[p]>>>> \o Drop(@, p), s.cap), !.use = Without(@, p)], 0)
    [] e.op = "remove" -> IF InUse(s, p) THEN {} ELSE Ok([s EXCEPT !.q = Drop(@, p)], IF Has(s.q, p) THEN 1 ELSE 0)
    [] e.op = "unlink" -> Ok([s EXCEPT !.gone = IF Known(s, p) THEN @ \cup {p} ELSE @], IF OnDisk(s, p) THEN 1 ELSE 0)
    [] e.op = "size" -> Ok(s, Len(s.q))
    [] e.op = "usage" -> Ok(s, Cardinality(DOMAIN s.use))
    [] e.op = "open" -> Ok(s, Len(s.q) + Cardinality(DOMAIN s.use))
    [] e.op = "setcap" -> Ok([s EXCEPT !.cap = p, !.q = Trim(@, p)], 0)
    [] e.op = "getcap" -> Ok(s, s.cap)
    [] e.op = "destroy" -> Ok([s EXCEPT !.q = <<>>], 0)
    [] e.op = "content" -> IF OnDisk(s, p) THEN Ok(s, s.disk[p]) ELSE {[s |-> s, r |-> <<"none">>]}
    [] OTHER -> {}
Inv(s) == /\ Len(s.q) <= s.cap
          /\ \A i \in 1..Len(s.q) : ~InUse(s, s.q[i][1])
          /\ \A i, j \in 1..Len(s.q) : s.q[i][1] = s.q[j][1] => i = j
K == 1..2
Ops(c, s) == {[op |-> o, a |-> <<k>>] : o \in {"checkout", "checkin", "remove", "unlink"}, k \in K} \cup {[op |-> "put", a |-> <<k, 7>>] : k \in K}
      \cup {[op |-> o, a |-> <<>>] : o \in {"size", "usage", "open", "getcap"}} \cup {[op |-> "setcap", a |-> <<n>>] : n \in 0..2}
Bound(c, s) == \A k \in DOMAIN s.gen : s.gen[k] <= 2 /\ Len(s.disk[k]) <= 1
====
