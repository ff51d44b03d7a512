---- MODULE ProdCons ----
(* eckit::ProducerConsumer: one producer, one consumer thread, `slots` payloads in a ring.
   Events are emitted by the producer and consumer callbacks: pstart/pend (item k, ok or fail), done (answer), cstart/cend. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES slots, on, ps, pe, cs, ce, fin, errs
vars == <<slots, on, ps, pe, cs, ce, fin, errs>>
\* ps/pe: productions started/completed, cs/ce: consumptions started/completed (failed ones included); errs: items whose callback failed
CInit(c) == slots = c.slots /\ on = 0 /\ ps = 0 /\ pe = 0 /\ cs = 0 /\ ce = 0 /\ fin = FALSE /\ errs = {}
Call == on = 0 /\ on' = 1 /\ ps' = 0 /\ pe' = 0 /\ cs' = 0 /\ ce' = 0 /\ fin' = FALSE /\ errs' = {} /\ UNCHANGED slots
DoneQ(b) == on = 1 /\ ~fin /\ ps = pe /\ fin' = b /\ UNCHANGED <<slots, on, ps, pe, cs, ce, errs>>
\* the slot being filled is free: at most `slots` items are between production and end of consumption
PStart(k) == on = 1 /\ ~fin /\ ps = pe /\ k = ps + 1 /\ k <= ce + slots /\ ps' = k /\ UNCHANGED <<slots, on, pe, cs, ce, fin, errs>>
PEnd(k, ok) == pe + 1 = ps /\ k = ps /\ pe' = k /\ errs' = (IF ok THEN errs ELSE errs \cup {<<"p", k>>}) /\ UNCHANGED <<slots, on, ps, cs, ce, fin>>
\* items are consumed in order, each once, only after their production succeeded
CStart(k) == on = 1 /\ cs = ce /\ k = cs + 1 /\ k <= pe /\ <<"p", k>> \notin errs /\ (\A x \in errs : x[1] # "c")
             /\ cs' = k /\ UNCHANGED <<slots, on, ps, pe, ce, fin, errs>>
CEnd(k, ok) == ce + 1 = cs /\ k = cs /\ ce' = k /\ errs' = (IF ok THEN errs ELSE errs \cup {<<"c", k>>}) /\ UNCHANGED <<slots, on, ps, pe, cs, fin>>
\* success only when everything produced has been consumed and nothing failed; a failure is reported with a reason that occurred
Ret(r) == /\ on = 1 /\ ps = pe /\ cs = ce
          /\ IF r[1] = "ok" THEN fin /\ ce = pe /\ errs = {} ELSE r[1] = "exc" /\ <<r[2][1], r[2][2]>> \in errs
          /\ on' = 0 /\ UNCHANGED <<slots, ps, pe, cs, ce, fin, errs>>
Act(e) == CASE e.op = "call" -> Call
            [] e.op = "done" -> DoneQ(e.b)
            [] e.op = "pstart" -> PStart(e.k)
            [] e.op = "pend" -> PEnd(e.k, e.ok)
            [] e.op = "cstart" -> CStart(e.k)
            [] e.op = "cend" -> CEnd(e.k, e.ok)
            [] e.op = "ret" -> Ret(e.r)
            [] e.op = "limit" -> UNCHANGED vars
            [] OTHER -> FALSE
Silent(e) == FALSE
Inv == ce <= cs /\ cs <= pe /\ pe <= ps /\ ps <= ce + slots /\ cs <= ce + 1
\* exhaustive model: at most 6 items, any callback may fail
N == 6
MNext == \/ Call \/ \E b \in BOOLEAN : DoneQ(b)
         \/ \E k \in 1..N : PStart(k) \/ CStart(k) \/ \E o \in BOOLEAN : PEnd(k, o) \/ CEnd(k, o)
         \/ Ret(<<"ok">>) \/ \E x \in errs : Ret(<<"exc", x>>)
MSpec == (\E n \in 1..3 : CInit([slots |-> n])) /\ [][MNext]_vars
\* the transfer can always be brought to an end
Progress == on = 1 => ENABLED MNext
====
