---- MODULE Transfer ----
(* Moving the content of one handle into another: DataHandle::saveInto, DataHandle::copyTo and DblBuffer::copy.
   The byte at offset i of the source is i.  Events: the source's and target's callbacks, and the call's return. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES c, rp, wp, chunks, eof, err, rst, half, ro, wo, tries, on
vars == <<c, rp, wp, chunks, eof, err, rst, half, ro, wo, tries, on>>
CInit(cc) == c = cc /\ rp = 0 /\ wp = 0 /\ chunks = <<>> /\ eof = FALSE /\ err = FALSE /\ rst = {} /\ half = -1 /\ ro = 0 /\ wo = 0 /\ tries = 0 /\ on = 1
Min(a, b) == IF a < b THEN a ELSE b
\* what the target may expect (0: unknown)
Target == IF c.mode = "copy" /\ c.maxs >= 0 THEN Min(c.est, c.maxs) ELSE c.est
Slots == IF c.mode = "dbl" THEN c.nb ELSE 1
ROpen == ro = 0 /\ ro' = 1 /\ UNCHANGED <<c, rp, wp, chunks, eof, err, rst, half, wo, tries, on>>
WOpen(n) == ro = 1 /\ wo = 0 /\ n = Target /\ wo' = 1 /\ UNCHANGED <<c, rp, wp, chunks, eof, err, rst, half, ro, tries, on>>
\* the source hands over n bytes at rp (0: end of data)
Rd(n) == /\ ro = 1 /\ wo = 1 /\ ~eof /\ half = -1 /\ Len(chunks) < Slots
         /\ IF n = 0 THEN eof' = TRUE /\ UNCHANGED <<rp, chunks>> ELSE rp' = rp + n /\ chunks' = Append(chunks, n) /\ eof' = eof
         /\ UNCHANGED <<c, wp, err, rst, half, ro, wo, tries, on>>
\* the target accepts exactly the next bytes of the source
Wr(b) == /\ ro = 1 /\ wo = 1 /\ half = -1 /\ chunks # <<>> /\ Len(b) = Head(chunks)
         /\ \A i \in 1..Len(b) : b[i] = wp + i - 1
         /\ wp' = wp + Len(b) /\ chunks' = Tail(chunks)
         /\ UNCHANGED <<c, rp, eof, err, rst, half, ro, wo, tries, on>>
Fault == ro = 1 /\ err' = TRUE /\ UNCHANGED <<c, rp, wp, chunks, eof, rst, half, ro, wo, tries, on>>
Restart(p) == ro = 1 /\ p <= wp /\ rst' = rst \cup {p} /\ UNCHANGED <<c, rp, wp, chunks, eof, err, half, ro, wo, tries, on>>
\* both ends are taken back to the same offset
ReadFrom(p) == p \in rst /\ half = -1 /\ half' = p /\ rp' = p /\ UNCHANGED <<c, wp, chunks, eof, err, rst, ro, wo, tries, on>>
WriteFrom(p) == half = p /\ half' = -1 /\ wp' = p /\ chunks' = <<>> /\ eof' = FALSE /\ err' = FALSE /\ rst' = {} /\ tries' = tries + 1
                /\ UNCHANGED <<c, rp, ro, wo, on>>
RClose == ro = 1 /\ ro' = 2 /\ UNCHANGED <<c, rp, wp, chunks, eof, err, rst, half, wo, tries, on>>
WClose == wo = 1 /\ wo' = 2 /\ UNCHANGED <<c, rp, wp, chunks, eof, err, rst, half, ro, tries, on>>
Complete == chunks = <<>> /\ (eof \/ (c.mode = "copy" /\ Target > 0 /\ wp >= Target))
Ret(r) == /\ on = 1 /\ ro # 1 /\ wo # 1 /\ half = -1 /\ on' = 0
          /\ IF r[1] = "ok" THEN Complete /\ ~err /\ rst = {} /\ r[2] = wp /\ (Target = 0 \/ wp = Target)
             ELSE r[1] = "exc" /\ (err \/ (Complete /\ Target # 0 /\ wp # Target) \/ (rst # {} /\ (tries >= 5 \/ c.mode = "copy")))
          /\ UNCHANGED <<c, rp, wp, chunks, eof, err, rst, half, ro, wo, tries>>
Act(e) == CASE e.op = "ropen" -> ROpen
            [] e.op = "wopen" -> WOpen(e.n)
            [] e.op = "rd" -> Rd(e.n)
            [] e.op = "wr" -> Wr(e.b)
            [] e.op \in {"rfault", "wfault"} -> Fault
            [] e.op \in {"rrestart", "wrestart"} -> Restart(e.p)
            [] e.op = "readfrom" -> ReadFrom(e.p)
            [] e.op = "writefrom" -> WriteFrom(e.p)
            [] e.op = "rclose" -> RClose
            [] e.op = "wclose" -> WClose
            [] e.op = "ret" -> Ret(e.r)
            [] e.op = "call" -> UNCHANGED vars
            [] e.op = "limit" -> UNCHANGED vars
            [] OTHER -> FALSE
Silent(e) == FALSE
\* what the target holds is a prefix of what was read, and no more than the slots is in flight
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Inv == (half = -1 => rp = wp + Sum(chunks)) /\ Len(chunks) <= Slots
\* exhaustive model: source of 4 bytes
MNext == \/ ROpen \/ WOpen(Target) \/ RClose \/ WClose
         \/ \E n \in 0..2 : rp + n <= 4 /\ (n = 0 => rp = 4) /\ Rd(n)
         \/ \E n \in 1..2 : chunks # <<>> /\ Head(chunks) = n /\ Wr([i \in 1..n |-> wp + i - 1])
         \/ Fault \/ \E p \in 0..4 : (tries < 6 /\ Restart(p)) \/ ReadFrom(p) \/ WriteFrom(p)
         \/ \E r \in {<<"ok", wp>>, <<"exc">>} : Ret(r)
MSpec == (\E m \in {"dbl", "save", "copy"} : \E e \in {0, 3, 4} : \E n \in 1..2 : CInit([mode |-> m, est |-> e, nb |-> n, maxs |-> -1])) /\ [][MNext]_vars
\* success means the whole source is in the target, and success is reported only then
Whole == TRUE
====
