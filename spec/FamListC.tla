---- MODULE FamListC ----
(* Concurrent use of a FAM list: insertions take effect atomically; a reader sees every element inserted before it started, in order, none twice, none of its own making *)
EXTENDS Integers, Sequences, FiniteSets, TLC
L == INSTANCE FamList
VARIABLES q, p
vars == <<q, p>>
Thr == 0..7
Idle == [on |-> 0]
CInit(c) == q = <<>> /\ p = [t \in Thr |-> Idle]
Reads == {"list", "rlist", "size"}
Busy == {t \in Thr : p[t].on # 0 /\ p[t].e.op \notin Reads}
(* what a reader starting now must see: all elements, but for those inserted since an insertion still under way began
   (an element put behind one whose forward link is not made yet is reached once that link is made) *)
Sure == {x \in {q[i] : i \in 1..Len(q)} : \A b \in Busy : x \in p[b].must}
Call(t, e) == p' = [p EXCEPT ![t] = [on |-> IF e.op \in Reads THEN 3 ELSE 1, e |-> e, must |-> Sure, n |-> Len(q), lag |-> Cardinality(Busy)]] /\ UNCHANGED q
Lin(t) == p[t].on = 1 /\ \E o \in L!Steps([q |-> q], p[t].e) : q' = o.s.q /\ p' = [p EXCEPT ![t] = [on |-> 2, e |-> p[t].e, r |-> o.r, must |-> p[t].must]]
\* all values are distinct
Pos(x, y) == CHOOSE i \in 1..Len(x) : x[i] = y
Seen(r, m) == LET R == {r[i] : i \in 1..Len(r)} IN
              /\ R \subseteq {q[i] : i \in 1..Len(q)}
              /\ \A i \in 1..(Len(r) - 1) : Pos(q, r[i]) < Pos(q, r[i + 1])
              /\ m \subseteq R
SameR(a, b) == a[1] = b[1] /\ (IF Len(a) # Len(b) THEN FALSE ELSE IF Len(a) < 2 THEN TRUE ELSE a[2] = b[2])
Ret(t, r) == /\ \/ p[t].on = 2 /\ SameR(p[t].r, r)
                \/ p[t].on = 3 /\ r[1] = "ok"
                   /\ (IF p[t].e.op = "list" THEN Seen(r[2], p[t].must)
                       ELSE IF p[t].e.op = "rlist" THEN Busy # {} \/ p[t].lag > 0 \/ r[2] = L!Rev(q)
                       ELSE r[2] <= Len(q) /\ r[2] >= p[t].n - p[t].lag)
             /\ p' = [p EXCEPT ![t] = Idle] /\ UNCHANGED q
Act(e) == CASE e.op = "call" -> Call(e.t, e.e)
            [] e.op = "ret" -> Ret(e.t, e.r)
            [] e.op = "limit" -> UNCHANGED vars
            [] OTHER -> FALSE
Silent(e) == e.op = "ret" /\ \E t \in Thr : Lin(t)
Inv == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
====
