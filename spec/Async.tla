---- MODULE Async ----
(* eckit::AsyncHandle: writes are queued and handed to the wrapped handle by a writer thread.
   call/ret: the user's calls; wr/hflush/hclose: the wrapped handle as called by eckit. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES max, rnd, buf, pend, err, dead, closed
vars == <<max, rnd, buf, pend, err, dead, closed>>
CInit(c) == max = c.max /\ rnd = c.rnd /\ buf = <<>> /\ pend = [on |-> 0] /\ err = {} /\ dead = FALSE /\ closed = 0
Round(n) == ((n + rnd - 1) \div rnd) * rnd
RECURSIVE Used(_)
Used(b) == IF b = <<>> THEN 0 ELSE Round(Len(Head(b))) + Used(Tail(b))
Call(e) == pend.on = 0 /\ ~dead /\ pend' = [on |-> 1, e |-> e, hf |-> 0, hc |-> 0] /\ UNCHANGED <<max, rnd, buf, err, dead, closed>>
\* effect of the pending call
Lin ==
  /\ pend.on = 1
  /\ LET e == pend.e IN
     CASE e.op = "write" ->
            \/ err # {} /\ pend' = [on |-> 2, r |-> "exc", e |-> e] /\ UNCHANGED buf
            \/ /\ err = {} /\ (buf = <<>> \/ Used(buf) + Round(Len(e.a)) < max)
               /\ buf' = Append(buf, e.a) /\ pend' = [on |-> 2, r |-> "ok", e |-> e]
       [] e.op = "open" -> buf = <<>> /\ pend' = [on |-> 2, r |-> "ok", e |-> e] /\ UNCHANGED buf
       [] e.op = "flush" ->
            \/ err # {} /\ pend.hf = 0 /\ pend' = [on |-> 2, r |-> "exc", e |-> e] /\ UNCHANGED buf
            \/ err = {} /\ buf = <<>> /\ pend.hf = 1 /\ pend' = [on |-> 2, r |-> "ok", e |-> e] /\ UNCHANGED buf
       [] e.op = "close" ->
            \/ err # {} /\ pend' = [on |-> 2, r |-> "exc", e |-> e] /\ UNCHANGED buf
            \/ err = {} /\ buf = <<>> /\ pend.hf = 1 /\ pend.hc = 1 /\ pend' = [on |-> 2, r |-> "ok", e |-> e] /\ UNCHANGED buf
       [] e.op = "destroy" -> pend' = [on |-> 2, r |-> "ok", e |-> e] /\ buf' = <<>>
       [] OTHER -> FALSE
  /\ UNCHANGED <<max, rnd, err, dead, closed>>
Ret(r) == /\ pend.on = 2 /\ r[1] = pend.r
          /\ r[1] = "exc" => r[2] \in err
          /\ dead' = (pend.e.op = "destroy")
          /\ pend' = [on |-> 0] /\ UNCHANGED <<max, rnd, buf, err, closed>>
\* the wrapped handle receives the oldest queued bytes, all of them, once
Wr(a, out) == /\ ~dead /\ buf # <<>> /\ Head(buf) = a /\ buf' = Tail(buf)
              /\ err' = (IF out = "ok" THEN err ELSE err \cup {out})
              /\ UNCHANGED <<max, rnd, pend, dead, closed>>
HFlush == pend.on = 1 /\ pend.e.op \in {"flush", "close"} /\ buf = <<>> /\ err = {} /\ pend.hf = 0 /\ pend' = [pend EXCEPT !.hf = 1]
          /\ UNCHANGED <<max, rnd, buf, err, dead, closed>>
HClose == pend.on = 1 /\ pend.e.op = "close" /\ buf = <<>> /\ pend.hf = 1 /\ pend.hc = 0 /\ pend' = [pend EXCEPT !.hc = 1]
          /\ UNCHANGED <<max, rnd, buf, err, dead, closed>>
Act(e) == CASE e.op = "call" -> Call(e.e)
            [] e.op = "ret" -> Ret(e.r)
            [] e.op = "wr" -> Wr(e.a, e.out)
            [] e.op = "hflush" -> HFlush
            [] e.op = "hclose" -> HClose
            [] e.op = "limit" -> UNCHANGED vars
            [] OTHER -> FALSE
Silent(e) == pend.on = 1 /\ Lin
Inv == buf = <<>> \/ Len(buf) = 1 \/ Used(buf) < max
\* exhaustive model
MNext == \/ \E op \in {"flush", "close", "destroy"} : Call([op |-> op, a |-> <<>>])
         \/ \E n \in 1..3 : Len(buf) < 3 /\ Call([op |-> "write", a |-> [i \in 1..n |-> n]])
         \/ Lin \/ HFlush \/ HClose
         \/ \E o \in {"ok", "e1"} : buf # <<>> /\ Wr(Head(buf), o)
         \/ pend.on = 2 /\ \E r \in {<<"ok">>} \cup {<<"exc", x>> : x \in err} : Ret(r)
MSpec == (\E m \in {3, 5} : \E r \in {1, 2} : CInit([max |-> m, rnd |-> r])) /\ [][MNext]_vars
\* a pending call can always complete once the writer has delivered what is queued
NoDeadlock == pend.on = 1 => ENABLED (Lin \/ HFlush \/ HClose \/ (buf # <<>> /\ Wr(Head(buf), "ok")))
====
