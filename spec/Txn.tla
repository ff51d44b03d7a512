---- MODULE Txn ----
(* eckit::TxnLog: a persistent set of active transactions with fresh, increasing identifiers.
   Calls name a transaction by the order in which its begin returned. A crash in a call leaves the state before or after it (or, between the two steps of an
   end with backup: recorded as done, still active). Identifiers need not be consecutive: at most s.sl further than any issued before. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
Init0(c) == [hi |-> 0, ids |-> <<>>, act |-> [x \in {} |-> 0], done |-> <<>>, sl |-> c.slack]
Ok(s, v) == {[s |-> s, r |-> <<"ok", v>>]}
None(s) == {[s |-> s, r |-> <<"none">>]}
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Less(a, b) == a < b
Active(s) == [i \in 1..Cardinality(DOMAIN s.act) |-> LET k == SetToSortSeq(DOMAIN s.act, Less)[i] IN <<k, s.act[k]>>]
Has(s, k) == IF k <= Len(s.ids) THEN s.ids[k] \in DOMAIN s.act ELSE FALSE
Fresh(s) == (s.hi + 1)..(s.hi + s.sl)
\* op, arguments -> permitted outcomes
Do(s, op, a) ==
  CASE op = "begin" -> {[s |-> [s EXCEPT !.hi = h, !.ids = Append(@, h), !.act = (h :> a[1]) @@ @], r |-> <<"ok", h>>] : h \in Fresh(s)}
    [] op = "update" -> IF Has(s, a[1]) THEN Ok([s EXCEPT !.act[s.ids[a[1]]] = a[2]], 0) ELSE None(s)
    [] op = "end" -> IF Has(s, a[1]) THEN Ok([s EXCEPT !.act = Without(@, s.ids[a[1]]), !.done = IF a[2] = 1 THEN Append(@, <<s.ids[a[1]], s.act[s.ids[a[1]]]>>) ELSE @], 0) ELSE None(s)
    [] op = "exists" -> Ok(s, IF Has(s, a[1]) THEN 1 ELSE 0)
    [] op \in {"find", "recover", "recoverthread"} -> Ok(s, Active(s))
    [] op = "recoveryoung" -> Ok(s, <<>>)
    [] op = "findold" -> Ok(s, s.done)
    [] op = "reopen" -> Ok(s, 0)
    [] op = "lose" -> Ok([s EXCEPT !.hi = IF DOMAIN s.act = {} THEN 0 ELSE Max(DOMAIN s.act), !.ids = [i \in 1..Len(@) |-> IF @[i] \in DOMAIN s.act THEN @[i] ELSE 0]], Active(s))
    [] OTHER -> {}
\* states a crash inside the call may leave
Crashed(s, op, a) ==
  {s} \cup
  CASE op = "begin" -> {[s EXCEPT !.hi = h] : h \in Fresh(s)} \cup {[s EXCEPT !.hi = h, !.act = (h :> a[1]) @@ @] : h \in Fresh(s)}
    [] op = "update" -> IF Has(s, a[1]) THEN {[s EXCEPT !.act[s.ids[a[1]]] = a[2]]} ELSE {}
    [] op = "end" -> IF ~Has(s, a[1]) THEN {} ELSE
         {[s EXCEPT !.act = Without(@, s.ids[a[1]]), !.done = IF a[2] = 1 THEN Append(@, <<s.ids[a[1]], s.act[s.ids[a[1]]]>>) ELSE @]} \cup
         (IF a[2] = 1 THEN {[s EXCEPT !.done = Append(@, <<s.ids[a[1]], s.act[s.ids[a[1]]]>>)]} ELSE {})
    [] OTHER -> {}
Steps(s, e) ==
  IF e.op = "crash" THEN {[s |-> t, r |-> <<"crashed">>] : t \in Crashed(s, e.a[3], SubSeq(e.a, 4, Len(e.a)))} \cup Do(s, e.a[3], SubSeq(e.a, 4, Len(e.a)))
  ELSE Do(s, e.op, e.a)
\* identifiers of active transactions are never beyond the highest issued one
Inv(s) == (\A k \in DOMAIN s.act : k <= s.hi) /\ (\A i \in 1..Len(s.ids) : s.ids[i] <= s.hi)
K == 1..2
Calls == {<<"begin", 7>>} \cup {<<"update", k, 8>> : k \in K} \cup {<<"end", k, b>> : k \in K, b \in 0..1}
Ops(c, s) == {[op |-> x[1], a |-> Tail(x)] : x \in Calls} \cup {[op |-> o, a |-> <<>>] : o \in {"find", "recover", "recoverthread", "recoveryoung", "findold", "reopen"}}
      \cup {[op |-> "exists", a |-> <<k>>] : k \in K} \cup {[op |-> "crash", a |-> <<n, m>> \o x] : n \in {2, 4}, m \in {0}, x \in Calls}
Bound(c, s) == Len(s.ids) <= 2 /\ Len(s.done) <= 1 /\ s.hi <= 2 /\ Cardinality(DOMAIN s.act) <= 2
====
