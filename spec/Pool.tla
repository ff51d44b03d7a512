---- MODULE Pool ----
(* eckit::ThreadPool: FIFO of tasks served by a set of workers; a 0 in the queue is a terminator.
   Client calls: call -> (silent effect) -> ret.  Task life: silent dequeue -> start -> end -> del -> silent end of task. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES q, out, act, w, cnt, pend, err, dead
vars == <<q, out, act, w, cnt, pend, err, dead>>

Thr == 0..40
Idle == [on |-> 0]
Zeros(n) == [i \in 1..n |-> 0]
Rng(s) == {s[i] : i \in 1..Len(s)}
Empty == [x \in {} |-> 0]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Busy == Cardinality(DOMAIN act)

CInit(c) == /\ q = <<>> /\ out = {} /\ act = Empty /\ w = c.n /\ cnt = c.n
            /\ pend = [t \in Thr |-> Idle] /\ err = {} /\ dead = FALSE

Set(t, r) == pend' = [pend EXCEPT ![t] = [on |-> 2, e |-> pend[t].e, r |-> r]]

\* the effect of a call (on = 1: not yet taken effect; 3: waiting for the workers to leave; 2: may return)
Lin(t) ==
  /\ pend[t].on = 1
  /\ LET e == pend[t].e IN
     CASE e.op = "push" -> q' = Append(q, e.a[1]) /\ out' = out \cup {e.a[1]} /\ Set(t, <<"ok">>) /\ UNCHANGED <<act, w, cnt, err, dead>>
       [] e.op = "pushlist" -> q' = q \o e.a /\ out' = out \cup Rng(e.a) /\ Set(t, <<"ok">>) /\ UNCHANGED <<act, w, cnt, err, dead>>
       [] e.op = "wait" -> out = {} /\ Set(t, <<"ok">>) /\ UNCHANGED <<q, out, act, w, cnt, err, dead>>
       [] e.op = "done" -> Set(t, <<"ok", (out = {}) /\ (q = <<>>)>>) /\ UNCHANGED <<q, out, act, w, cnt, err, dead>>
       [] e.op = "resize" -> /\ cnt' = e.a[1]
                             /\ IF e.a[1] < cnt THEN q' = q \o Zeros(cnt - e.a[1]) /\ w' = w
                                ELSE q' = q /\ w' = w + (e.a[1] - cnt)
                             /\ Set(t, <<"ok">>) /\ UNCHANGED <<out, act, err, dead>>
       [] e.op \in {"waitForThreads", "destroy"} ->
              q' = q \o Zeros(cnt) /\ pend' = [pend EXCEPT ![t].on = 3] /\ UNCHANGED <<out, act, w, cnt, err, dead>>
       [] OTHER -> FALSE

Joined(t) ==
  /\ pend[t].on = 3 /\ w = 0
  /\ IF pend[t].e.op = "destroy" THEN Set(t, <<"ok">>) /\ dead' = TRUE /\ err' = {}
     ELSE Set(t, IF err = {} THEN <<"ok">> ELSE <<"exc", err>>) /\ err' = {} /\ UNCHANGED dead
  /\ UNCHANGED <<q, out, act, w, cnt>>

\* a free worker takes the head of the queue
Deq == /\ q # <<>> /\ w > Busy
       /\ q' = Tail(q)
       /\ IF Head(q) = 0 THEN w' = w - 1 /\ act' = act ELSE w' = w /\ act' = (Head(q) :> "deq") @@ act
       /\ UNCHANGED <<out, cnt, pend, err, dead>>

EndTask(k) == /\ act[k] = "del"
              /\ act' = Without(act, k) /\ out' = out \ {k}
              /\ UNCHANGED <<q, w, cnt, pend, err, dead>>

Phase(k, p, n) == /\ k \in DOMAIN act /\ act[k] = p /\ ~dead
                  /\ act' = [act EXCEPT ![k] = n]

Start(k) == Phase(k, "deq", "run") /\ UNCHANGED <<q, out, w, cnt, pend, err, dead>>
End(k, fail) == Phase(k, "run", "ran") /\ err' = (IF fail THEN err \cup {k} ELSE err) /\ UNCHANGED <<q, out, w, cnt, pend, dead>>
Del(k) == Phase(k, "ran", "del") /\ UNCHANGED <<q, out, w, cnt, pend, err, dead>>

Call(t, e) == pend[t].on = 0 /\ ~dead /\ pend' = [pend EXCEPT ![t] = [on |-> 1, e |-> e]] /\ UNCHANGED <<q, out, act, w, cnt, err, dead>>
Same(a, b) == a[1] = b[1] /\ IF a[1] = "exc" THEN a[2] = Rng(b[2]) ELSE IF Len(a) = 1 THEN Len(b) = 1 ELSE a[2] = b[2]
Ret(t, r) == pend[t].on = 2 /\ Same(pend[t].r, r) /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<q, out, act, w, cnt, err, dead>>

\* nothing more can happen: only legitimate when there is no worker left for the queued tasks
Quiet == /\ act = Empty /\ (q = <<>> \/ w = 0)
         /\ \A t \in Thr : pend[t].on = 0 \/ (pend[t].on = 1 /\ pend[t].e.op = "wait" /\ out # {}) \/ (pend[t].on = 3 /\ w > 0)

Act(e) ==
  CASE e.op = "call"  -> Call(e.t, e.e)
    [] e.op = "ret"   -> Ret(e.t, e.r)
    [] e.op = "start" -> Start(e.k)
    [] e.op = "end"   -> End(e.k, e.fail)
    [] e.op = "del"   -> Del(e.k)
    [] e.op = "stuck" -> Quiet /\ UNCHANGED vars
    [] e.op = "limit" -> UNCHANGED vars
    [] OTHER -> FALSE

Inner == (\E t \in Thr : Lin(t) \/ Joined(t)) \/ Deq \/ (\E k \in DOMAIN act : EndTask(k))
Silent(e) == e.op \in {"start", "ret", "stuck"} /\ Inner

\* every outstanding task is queued or held by exactly one worker; workers never outnumbered
Inv == /\ out = (Rng(q) \ {0}) \cup DOMAIN act
       /\ (Rng(q) \ {0}) \cap DOMAIN act = {}
       /\ \A i, j \in 1..Len(q) : (q[i] # 0 /\ q[i] = q[j]) => i = j
       /\ Busy <= w
====
