---- MODULE Locks ----
(* eckit's mutual exclusion: Mutex, StaticMutex, Semaphore, FileLock (one owner, re-entrant or not), FileLocker (shared and exclusive byte ranges),
   SharedInt (a counted resource), Once and ThreadSingleton. The first argument of every call is the calling thread or process. A call that may not proceed has no step. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Kinds == {"mutex", "smutex", "sem", "sem2", "flock", "range", "int", "once", "tsing"}
Cells == 0..5
Init0(c) == [kind |-> c.kind, own |-> 0, depth |-> 0, open |-> {}, cell |-> [x \in Cells |-> {}], free |-> 0, limit |-> 0, val |-> 0, cnt |-> 0, inst |-> [x \in {} |-> 0]]
Ok(s, v) == {[s |-> s, r |-> <<"ok", v>>]}
Reentrant(s) == s.kind \in {"mutex", "smutex", "sem", "sem2"}
Lock(s, t) == IF s.own = 0 THEN Ok([s EXCEPT !.own = t, !.depth = 1], 0)
              ELSE IF s.own = t /\ Reentrant(s) THEN Ok([s EXCEPT !.depth = @ + 1], 0)
              ELSE {}
Try(s, t) == IF Lock(s, t) # {} THEN {[s |-> o.s, r |-> <<"ok", 1>>] : o \in Lock(s, t)}
                                     \* two threads of one process share the semaphore object: another thread may be inside the call
                                     \cup (IF s.kind = "sem2" THEN Ok(s, 0) ELSE {})
             ELSE Ok(s, 0)
Unlock(s, t) == IF s.own # t THEN {} ELSE Ok([s EXCEPT !.depth = @ - 1, !.own = IF s.depth = 1 THEN 0 ELSE @], 0)
\* a shared counter incremented by its owner only: never loses an increment
Bump(s, t) == IF s.own # t THEN {} ELSE Ok([s EXCEPT !.cnt = @ + 1], s.cnt + 1)
\* byte ranges: cell -> set of <<process, 0 shared / 1 exclusive>>; a process replaces its own locks
Rng(a) == {x \in Cells : x >= a[2] /\ x < a[2] + a[3]}
May(s, a, t, x) == \A y \in s.cell[x] : y[1] = t \/ (a[4] = 0 /\ y[2] = 0)
Range(s, a, t) == IF \A x \in Rng(a) : May(s, a, t, x)
                  THEN Ok([s EXCEPT !.cell = [x \in Cells |-> IF x \in Rng(a) THEN {y \in s.cell[x] : y[1] # t} \cup {<<t, a[4]>>} ELSE s.cell[x]]], 0) ELSE {}
Unrange(s, a, t) == Ok([s EXCEPT !.cell = [x \in Cells |-> IF x \in Rng(a) THEN {y \in s.cell[x] : y[1] # t} ELSE s.cell[x]]], 0)
Steps(s, e) ==
  LET t == e.a[1] IN
  CASE e.op = "lock" -> IF s.kind = "flock" /\ t \notin s.open THEN {} ELSE Lock(s, t)
    [] e.op = "try" -> Try(s, t)
    [] e.op = "unlock" -> Unlock(s, t)
    [] e.op = "bump" -> Bump(s, t)
    [] e.op = "open" -> Ok([s EXCEPT !.open = @ \cup {t}], 0)
    [] e.op = "close" -> Ok([s EXCEPT !.open = @ \ {t}, !.own = IF s.own = t THEN 0 ELSE @, !.depth = IF s.own = t THEN 0 ELSE @], 0)
    [] e.op = "range" -> Range(s, e.a, t)
    [] e.op = "unrange" -> Unrange(s, e.a, t)
    [] e.op = "limit" -> IF s.free + e.a[2] - s.limit < 0 THEN {} ELSE Ok([s EXCEPT !.limit = e.a[2], !.free = @ + e.a[2] - s.limit], 0)
    [] e.op = "use" -> IF s.free < e.a[2] THEN {} ELSE Ok([s EXCEPT !.free = @ - e.a[2]], 0)
    [] e.op = "release" -> Ok([s EXCEPT !.free = @ + e.a[2]], 0)
    [] e.op = "free" -> Ok(s, s.free)
    [] e.op = "getlimit" -> Ok(s, s.limit)
    [] e.op = "once" -> Ok([s EXCEPT !.val = 1], 1)       \* the number of constructions
    [] e.op = "inst" -> IF t \in DOMAIN s.inst THEN Ok(s, s.inst[t]) ELSE Ok([s EXCEPT !.inst = (t :> t) @@ @], t)
    [] e.op = "alive" -> Ok(s, e.a[2])
    [] OTHER -> {}
Inv(s) == /\ (s.own = 0) = (s.depth = 0)
          /\ \A x \in Cells : \A y, z \in s.cell[x] : y = z \/ (y[1] # z[1] /\ y[2] = 0 /\ z[2] = 0)
T == 1..3
Ops(c, s) ==
  CASE c.kind \in {"mutex", "sem", "sem2"} -> {[op |-> o, a |-> <<t>>] : o \in {"lock", "try", "bump"} , t \in T} \cup {[op |-> "unlock", a |-> <<t>>] : t \in {s.own} \ {0}}
    [] c.kind = "smutex" -> {[op |-> o, a |-> <<t>>] : o \in {"lock", "bump"}, t \in T} \cup {[op |-> "unlock", a |-> <<t>>] : t \in {s.own} \ {0}}
    [] c.kind = "flock" -> {[op |-> "open", a |-> <<t, u>>] : t \in T \ s.open, u \in 0..1} \cup {[op |-> o, a |-> <<t>>] : o \in {"lock"}, t \in s.open \ {s.own}}
                           \cup {[op |-> "close", a |-> <<t>>] : t \in s.open} \cup {[op |-> o, a |-> <<t>>] : o \in {"unlock", "bump"}, t \in {s.own} \ {0}}
    [] c.kind = "range" -> {[op |-> "range", a |-> <<t, x, n, k>>] : t \in 1..2, x \in 0..1, n \in 1..2, k \in 0..1} \cup {[op |-> "unrange", a |-> <<t, x, n>>] : t \in 1..2, x \in 0..1, n \in 1..2}
    [] c.kind = "int" -> {[op |-> "limit", a |-> <<1, n>>] : n \in 0..2} \cup {[op |-> o, a |-> <<t, n>>] : o \in {"use", "release"}, t \in 1..2, n \in 1..2} \cup {[op |-> o, a |-> <<1, 0>>] : o \in {"free", "getlimit"}}
    [] OTHER -> {[op |-> "once", a |-> <<1>>]}
Bound(c, s) == s.depth <= 2 /\ s.cnt <= 1 /\ s.free <= 3
====
