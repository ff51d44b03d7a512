---- MODULE WriteH ----
(* A writable data handle, however it is composed, delivers the bytes written, or says that it did not. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Leaf == {"file", "raw", "aio", "fd", "mem", "grow", "own", "sink"}
One == {"buf", "stats", "shared", "fopen", "ostream"}
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Out(_, _)
RECURSIVE Outs(_, _, _)
RECURSIVE Split(_, _, _, _)
Outs(hs, w, i) == IF i > Len(hs) THEN <<>> ELSE Out(hs[i], w) \o Outs(hs, w, i + 1)
Split(hs, ls, w, i) == IF i > Len(hs) THEN <<>> ELSE LET l == Min(ls[i], Len(w)) IN Out(hs[i], SubSeq(w, 1, l)) \o Split(hs, ls, SubSeq(w, l + 1, Len(w)), i + 1)
\* what each leaf holds once w has been delivered
Out(t, w) == CASE t.k = "mem" -> <<w \o Zeros(t.n - Len(w))>>
               [] t.k \in Leaf -> <<w>>
               [] t.k = "tee" -> Outs(t.hs, w, 1)
               [] t.k = "multi" -> Split(t.hs, t.ls, w, 1)
               [] t.k \in One -> Out(t.h, w)
\* it fits
RECURSIVE Fits(_, _)
RECURSIVE FitS(_, _, _, _)
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
FitS(hs, ls, n, i) == i > Len(hs) \/ (Fits(hs[i], Min(ls[i], n)) /\ FitS(hs, ls, n - Min(ls[i], n), i + 1))
Fits(t, n) == CASE t.k \in {"mem", "own", "sink"} -> n <= t.n
                [] t.k \in Leaf -> TRUE
                [] t.k = "tee" -> \A i \in 1..Len(t.hs) : Fits(t.hs[i], n)
                [] t.k = "multi" -> n <= Sum(t.ls, 1) /\ FitS(t.hs, t.ls, n, 1)
                [] t.k \in One -> Fits(t.h, n)
RECURSIVE Sub(_)
Sub(t) == {t} \cup (IF t.k \in One THEN Sub(t.h) ELSE IF t.k \in {"multi", "tee"} THEN UNION {Sub(t.hs[i]) : i \in 1..Len(t.hs)} ELSE {})
Has(t, K) == \E x \in Sub(t) : x.k \in K
\* a failure shows immediately
Plain(t) == ~Has(t, {"buf", "fopen", "ostream", "aio"})
\* a sink that fails when it is closed
Bad(t) == \E x \in Sub(t) : x.k = "sink" /\ x.how = 3
RECURSIVE Can(_, _)
Can(t, o) ==
  CASE t.k = "file" -> o \in {"pos", "seek", "rewind", "flush", "append", "reopen"}
    [] t.k = "raw" -> o \in {"pos", "seek"}
    [] t.k = "fd" -> o \in {"pos", "seek"}
    [] t.k = "aio" -> o \in {"pos", "flush", "append", "reopen"}
    [] t.k = "mem" -> o \in {"pos", "seek", "rewind", "flush"}
    [] t.k \in {"grow", "own"} -> o \in {"pos", "seek", "rewind", "flush"}
    [] t.k = "sink" -> o \in {"pos", "seek", "rewind", "flush", "reopen"}
    [] t.k = "buf" -> o = "pos" \/ (o \in {"seek", "rewind", "flush", "reopen"} /\ Can(t.h, o))
    [] t.k \in {"stats"} -> Can(t.h, o)
    [] t.k = "shared" -> o \in {"pos", "seek", "rewind", "flush"} /\ Can(t.h, o)
    [] t.k = "fopen" -> o \in {"pos", "flush"} \/ (o \in {"seek", "reopen"} /\ Can(t.h, o) /\ ~Has(t, {"mem"}))
    [] t.k = "ostream" -> o = "flush" /\ Can(t.h, "flush")
    [] t.k \in {"tee", "multi"} -> (o = "flush" \/ (o = "reopen" /\ t.k = "tee")) /\ \A i \in 1..Len(t.hs) : Can(t.hs[i], o)
    [] OTHER -> FALSE
\* c.t: the composition; w: what was accepted, p: where the next byte goes, over: more was accepted than can be delivered
Init0(c) == [c |-> c, on |-> 0, w |-> <<>>, p |-> 0, over |-> FALSE, ap |-> FALSE]
Exc(s) == [s |-> [s EXCEPT !.on = 2, !.w = <<>>, !.p = 0, !.over = FALSE], r |-> <<"err">>]
\* a part of a sequence of handles is closed as soon as it is complete
May(s) == IF Bad(s.c.t) /\ Has(s.c.t, {"multi"}) THEN {Exc(s)} ELSE {}
Ok(s, v) == {[s |-> s, r |-> <<"ok", v>>]}
Bs(b, n) == [i \in 1..n |-> (b + i * 3) % 256]
Put(w, p, d) == [i \in 1..Max(Len(w), p + Len(d)) |-> IF i > p /\ i <= p + Len(d) THEN d[i - p] ELSE w[i]]
Wr(s, d) ==
  LET t == s.c.t
      New(n) == Put(s.w, s.p, SubSeq(d, 1, n))
      Acc(n, over) == [s |-> [s EXCEPT !.w = New(n), !.p = s.p + n, !.over = over], r |-> <<"ok", n>>] IN
  IF s.over THEN {Exc(s)} \cup {Acc(n, TRUE) : n \in 0..Len(d)}
  ELSE IF Fits(t, Len(New(Len(d)))) THEN {Acc(Len(d), FALSE)}
  ELSE {Exc(s)} \cup {Acc(n, FALSE) : n \in {n \in 0..(Len(d) - 1) : Fits(t, Len(New(n)))}} \cup (IF Plain(t) THEN {} ELSE {Acc(n, TRUE) : n \in 0..Len(d)})
\* everything accepted so far is where it belongs
Done(s, s2) == IF s.over THEN {Exc(s)} ELSE Ok(s2, Out(s.c.t, s.w))
Eff(s, e) ==
  LET t == s.c.t IN
  IF s.on = 2 THEN {[s |-> s, r |-> <<"dead">>]} ELSE
  CASE e.op = "open" -> Ok([s EXCEPT !.on = 1, !.w = <<>>, !.p = 0, !.ap = FALSE], 0)
    [] e.op = "append" -> Ok([s EXCEPT !.on = 1, !.p = Len(s.w), !.ap = TRUE], 0)
    [] e.op = "write" -> Wr(s, Bs(e.a[1], e.a[2]))
    [] e.op = "pos" -> Ok(s, s.p) \cup (IF s.over THEN {Exc(s)} ELSE {})
    [] e.op = "seek" -> Ok([s EXCEPT !.p = e.a[1]], e.a[1]) \cup (IF s.over THEN {Exc(s)} ELSE {})
    [] e.op = "rewind" -> Ok([s EXCEPT !.p = 0], 0) \cup (IF s.over THEN {Exc(s)} ELSE {})
    [] e.op = "flush" /\ t.k = "fopen" -> Ok(s, 0) \cup (IF s.over THEN {Exc(s)} ELSE {})
    [] e.op = "flush" -> Done(s, s)
    [] e.op = "close" -> IF Bad(t) /\ ~Has(t, {"multi"}) THEN {Exc(s)} ELSE Done(s, [s EXCEPT !.on = IF Can(t, "reopen") THEN 0 ELSE IF Can(t, "append") THEN 3 ELSE 4, !.p = 0])
    [] OTHER -> {}
Steps(s, e) == IF s.on = 2 THEN Eff(s, e) ELSE Eff(s, e) \cup May(s)
Inv(s) == s.p \in 0..Len(s.w) /\ (~s.over => Fits(s.c.t, Len(s.w)))
O(o, a) == [op |-> o, a |-> a]
Ops(c, s) ==
  LET t == c.t  If(o, S) == IF Can(t, o) THEN S ELSE {} IN
  IF s.on = 2 THEN {}
  ELSE IF s.on = 4 THEN {}
  ELSE IF s.on \in {0, 3} THEN (IF s.on = 0 THEN {O("open", <<>>)} ELSE {}) \cup If("append", {O("append", <<>>)})
  ELSE IF s.ap THEN {O("close", <<>>)} \cup {O("write", <<50, k>>) : k \in 0..2} \cup If("flush", {O("flush", <<>>)})
  ELSE {O("close", <<>>)} \cup {O("write", <<IF s.p < Len(s.w) THEN 100 ELSE 1, k>>) : k \in {0, 1, 3}}
       \cup If("pos", {O("pos", <<>>)}) \cup If("seek", {O("seek", <<p>>) : p \in 0..Len(s.w)}) \cup If("rewind", {O("rewind", <<>>)})
       \cup If("flush", {O("flush", <<>>)})
Bound(c, s) == Len(s.w) <= 4 /\ (Len(s.w) >= 4 => s.p = Len(s.w))
W(k, h) == [k |-> k, h |-> h]
B(h, z) == [k |-> "buf", h |-> h, z |-> z]
F == [k |-> "file"]
G(n) == [k |-> "grow", n |-> n]
M(n) == [k |-> "mem", n |-> n]
A(z) == [k |-> "aio", z |-> z]
S(n, h) == [k |-> "sink", n |-> n, how |-> h]
Mu(hs, ls) == [k |-> "multi", hs |-> hs, ls |-> ls]
T(hs) == [k |-> "tee", hs |-> hs]
Trees == {F, [k |-> "raw"], [k |-> "fd"], A(1), A(3), M(3), M(0), [k |-> "own", n |-> 3], G(0), G(3), S(3, 0), S(3, 1), S(3, 2), S(9, 3),
          B(F, 2), B(F, 4), B(M(3), 2), B(G(0), 3), B(S(3, 0), 2), B(S(3, 1), 4), B(S(3, 2), 3), B(A(2), 2), B(T(<<F, G(0)>>), 2), B(B(F, 2), 3), B(S(9, 3), 2),
          T(<<F, F>>), T(<<F, S(3, 0)>>), T(<<S(2, 1), G(0), A(1)>>), T(<<B(F, 2), G(0)>>),
          Mu(<<F, F>>, <<2, 3>>), Mu(<<F, F, F>>, <<0, 2, 0>>), Mu(<<F, G(0), F>>, <<2, 0, 1>>), Mu(<<S(1, 0), F>>, <<2, 2>>), Mu(<<B(F, 3), B(S(1, 1), 5)>>, <<2, 2>>), Mu(<<F, S(9, 3)>>, <<0, 0>>),
          B(Mu(<<F, F, F>>, <<1, 0, 3>>), 2), W("stats", F), W("shared", F), W("shared", G(0)),
          W("fopen", F), W("fopen", B(F, 2)), W("fopen", T(<<F, F>>)), W("fopen", S(3, 0)), W("fopen", S(3, 1)), W("fopen", S(9, 3)),
          W("ostream", F), W("ostream", B(F, 3)), W("ostream", S(3, 0)), W("ostream", S(3, 1))}
Confs == {[t |-> t] : t \in Trees}
====
