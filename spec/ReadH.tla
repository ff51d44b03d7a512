---- MODULE ReadH ----
(* A readable data handle, however it is composed, is a cursor over the byte sequence it denotes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* -1: a byte that cannot be read
Slice(d, o, l) == [i \in 1..l |-> IF o + i <= Len(d) THEN d[o + i] ELSE -1]
Leaf == {"mem", "file", "pooled", "mmap", "raw", "fd", "chunk", "bad", "path"}
One == {"buf", "peek", "seekable", "stats", "fopen", "shared"}
RECURSIVE D(_)
RECURSIVE Cat(_, _)
RECURSIVE Parts(_, _, _)
Cat(hs, i) == IF i > Len(hs) THEN <<>> ELSE D(hs[i]) \o Cat(hs, i + 1)
Parts(d, p, i) == IF i + 1 > Len(p) THEN <<>> ELSE Slice(d, p[i], p[i + 1]) \o Parts(d, p, i + 2)
Bytes(t) == [i \in 1..t.n |-> (t.b + i * 7 + i \div 5) % 256]
D(t) == CASE t.k = "empty" -> <<>>
          [] t.k = "bad" -> [i \in 1..t.n |-> IF i > t.at THEN -1 ELSE Bytes(t)[i]]
          [] t.k \in Leaf -> Bytes(t)
          [] t.k = "pfile" -> Parts(Bytes(t), t.p, 1)
          [] t.k = "part" -> Parts(D(t.h), t.p, 1)
          [] t.k = "multi" -> Cat(t.hs, 1)
          [] t.k \in One -> D(t.h)
RECURSIVE Sub(_)
Sub(t) == {t} \cup (IF t.k \in {"part"} \cup One THEN Sub(t.h) ELSE IF t.k = "multi" THEN UNION {Sub(t.hs[i]) : i \in 1..Len(t.hs)} ELSE {})
All(t, P(_)) == \A x \in Sub(t) : P(x)
Short(t) == t.k # "buf" /\ t.k # "fopen" /\ ~All(t, LAMBDA x : x.k # "chunk")
\* what the parts of a composition can do
RECURSIVE Can(_, _)
Can(t, o) == LET H == IF t.k = "multi" THEN \A i \in 1..Len(t.hs) : t.hs[i].k = "empty" \/ Can(t.hs[i], o) ELSE TRUE IN
  CASE t.k = "mem" -> o \in {"pos", "seek", "skip", "rewind", "size", "clone"}
    [] t.k = "file" -> o \in {"pos", "seek", "skip", "rewind", "size", "restart", "clone", "stream"}
    [] t.k = "path" -> o \in {"pos", "seek", "skip", "rewind", "size", "restart"}
    [] t.k = "pooled" -> o \in {"pos", "seek", "skip"}
    [] t.k = "mmap" -> o \in {"pos", "seek", "skip", "rewind", "clone", "stream"}
    [] t.k = "raw" -> o \in {"pos", "seek", "skip"}
    [] t.k \in {"fd"} -> o \in {"pos", "seek", "skip"}
    [] t.k \in {"chunk", "bad"} -> o \in {"pos", "seek", "skip", "rewind", "size", "restart"}
    [] t.k = "pfile" -> o \in {"pos", "seek", "skip", "rewind", "size", "restart", "clone", "stream", "compress"}
    [] t.k = "part" -> o \in {"rewind", "restart"} \/ (o = "stream" /\ Can(t.h, o))
    [] t.k = "multi" -> CASE o = "rewind" -> TRUE
                          [] o \in {"pos", "seek", "skip"} -> H /\ \A i \in 1..Len(t.hs) : t.hs[i].k = "empty" \/ Can(t.hs[i], "size")
                          [] o \in {"size", "restart", "clone", "stream"} -> H
                          [] OTHER -> FALSE
    [] t.k = "buf" -> o = "pos" \/ (o \in {"seek", "skip"} /\ Can(t.h, "seek")) \/ (o \in {"rewind", "clone"} /\ Can(t.h, o))
    [] t.k = "stats" -> o \in {"pos", "seek", "skip", "rewind", "restart"} /\ Can(t.h, o)
    [] t.k = "shared" -> o \in {"pos", "seek", "skip", "rewind", "restart", "size"} /\ Can(t.h, o)
    [] t.k = "peek" -> o \in {"peek", "peekn", "skippeeked"} \/ (o \in {"pos", "seek", "rewind", "size"} /\ Can(t.h, o))
    [] t.k = "seekable" -> o \in {"pos", "seek", "skip", "rewind", "clear"}
    [] t.k = "fopen" -> o \in {"pos", "seek", "seekcur", "rewind"} \/ (o = "seekend" /\ Can(t.h, "size"))
    [] t.k = "empty" -> o \in {"pos", "seek", "rewind"}
    [] OTHER -> FALSE
\* the length announced when opened
RECURSIVE Est(_)
RECURSIVE SumE(_, _)
SumE(hs, i) == IF i > Len(hs) THEN 0 ELSE Est(hs[i]) + SumE(hs, i + 1)
RECURSIVE SumP(_, _)
SumP(p, i) == IF i > Len(p) THEN 0 ELSE p[i] + SumP(p, i + 2)
Est(t) == CASE t.k \in {"empty", "fd", "fopen"} -> 0
             [] t.k \in Leaf -> t.n
             [] t.k \in {"pfile", "part"} -> SumP(t.p, 2)
             [] t.k = "multi" -> SumE(t.hs, 1)
             [] OTHER -> Est(t.h)
Init0(c) == [c |-> c, d |-> D(c.t), on |-> 0, pos |-> 0, lo |-> 0, hi |-> 0]
Ok(s, v) == {[s |-> s, r |-> <<"ok", v>>]}
Closed(s, n) == [s EXCEPT !.on = n, !.pos = 0, !.hi = 0, !.lo = 0]
Exc(s) == [s |-> Closed(s, 2), r |-> <<"err">>]
Ahead(s) == s.c.t.k \in {"peek", "seekable"}
\* results of reading n bytes at p: all there are, or an error if one of them cannot be read (after what comes before it, perhaps)
Get(s, p, n, short) ==
  LET m == Min(n, Len(s.d) - p)
      bad == {i \in 1..m : s.d[p + i] = -1}
      f == CHOOSE i \in bad : \A j \in bad : i <= j IN
  IF bad = {} THEN IF short THEN {<<"ok", SubSeq(s.d, p + 1, p + l)>> : l \in Min(1, m)..m} ELSE {<<"ok", SubSeq(s.d, p + 1, p + m)>>}
  ELSE {<<"err">>} \cup {<<"ok", SubSeq(s.d, p + 1, p + l)>> : l \in 1..(f - 1)}
Seen(s, q) == IF Ahead(s) THEN Max(s.hi, q) ELSE 0
Rd(s, n) == {IF r[1] = "err" THEN Exc(s) ELSE [s |-> [s EXCEPT !.pos = s.pos + Len(r[2]), !.hi = Seen(s, s.pos + Len(r[2]))], r |-> r] : r \in Get(s, s.pos, n, Short(s.c.t))}
Whole(s) == {i \in 1..Len(s.d) : s.d[i] = -1} = {}
\* c.t: the composition; c.t2: what it is compared with
Steps(s, e) ==
  LET t == s.c.t
      At(p, v) == Ok([s EXCEPT !.pos = p, !.hi = IF t.k = "peek" THEN p ELSE s.hi], v) IN
  IF s.on = 2 THEN {[s |-> s, r |-> <<"dead">>]} ELSE
  CASE e.op = "open" -> Ok(Closed(s, 1), Est(t))
    [] e.op = "close" -> Ok(Closed(s, 0), 0)
    [] e.op = "read" -> Rd(s, e.a[1])
    [] e.op = "pos" -> Ok(s, s.pos)
    [] e.op = "est" -> Ok(s, Est(t))
    [] e.op = "size" -> Ok(s, Len(s.d))
    [] e.op = "seek" /\ t.k = "seekable" /\ e.a[1] \notin s.lo..s.hi -> {Exc(s)}
    [] e.op = "seek" -> At(e.a[1], e.a[1])
    [] e.op \in {"skip", "seekcur"} -> At(s.pos + e.a[1], 0)
    [] e.op = "skippeeked" -> Ok([s EXCEPT !.pos = @ + e.a[1]], 0)
    [] e.op = "seekend" -> At(Len(s.d) + e.a[1], 0)
    [] e.op = "rewind" /\ t.k = "seekable" /\ s.lo # 0 -> {Exc(s)}
    [] e.op = "rewind" -> At(0, 0)
    [] e.op = "restart" -> At(e.a[1], 0)
    \* looking ahead: the byte a[1] ahead, or a[1] bytes from a[2] ahead
    [] e.op = "peek" -> {IF r[1] = "ok" /\ Len(r[2]) = e.a[1] + 1 THEN [s |-> [s EXCEPT !.hi = Max(s.hi, s.pos + e.a[1] + 1)], r |-> <<"ok", r[2][e.a[1] + 1]>>] ELSE Exc(s)
                         : r \in Get(s, s.pos, e.a[1] + 1, FALSE)}
    [] e.op = "peekn" /\ e.a[2] > Len(s.d) - s.pos -> {Exc(s)}
    [] e.op = "peekn" -> {IF r[1] = "ok" /\ Len(r[2]) = Min(e.a[1] + e.a[2], Len(s.d) - s.pos)
                          THEN [s |-> [s EXCEPT !.hi = Max(s.hi, s.pos + Len(r[2]))], r |-> <<"ok", SubSeq(r[2], e.a[2] + 1, Len(r[2]))>>] ELSE Exc(s)
                          : r \in Get(s, s.pos, e.a[1] + e.a[2], FALSE)}
    [] e.op = "clear" -> Ok([s EXCEPT !.lo = s.hi, !.pos = s.hi], 0)
    \* a copy of the handle (a clone, or one sent through a stream) denotes the same bytes
    [] e.op \in {"clone", "stream", "compress"} -> Ok(s, 0)
    \* everything at once, into another handle
    [] e.op = "copy" -> IF Whole(s) /\ Est(t) \in {0, Len(s.d)} THEN Ok(s, s.d) ELSE {Exc(s)}
    [] e.op = "compare" -> LET d2 == D(s.c.t2) IN
         IF Whole(s) /\ {i \in 1..Len(d2) : d2[i] = -1} = {} THEN Ok(s, IF s.d = d2 /\ Est(t) = Est(s.c.t2) THEN 1 ELSE 0) ELSE {Exc(s)} \cup Ok(s, 0)
    [] OTHER -> {}
Inv(s) == s.pos \in 0..Len(s.d) /\ s.lo <= Max(s.hi, s.pos) /\ (s.c.t.k = "seekable" => s.pos \in s.lo..s.hi)
\* the model alone determines the results
Det(t) == All(t, LAMBDA x : x.k \notin {"chunk", "bad"})
O(o, a) == [op |-> o, a |-> a]
Ops(c, s) ==
  LET t == c.t  n == Len(s.d)  If(o, S) == IF Can(t, o) THEN S ELSE {} IN
  IF s.on = 2 THEN {}
  ELSE IF s.on = 0 THEN {O("open", <<>>), O("compare", <<>>)} \cup {O("copy", <<b>>) : b \in {1, 3, 100}}
                        \cup If("clone", {O("clone", <<>>)}) \cup If("stream", {O("stream", <<>>)}) \cup If("compress", {O("compress", <<>>)})
  ELSE {O("close", <<>>)} \cup {O("read", <<k>>) : k \in {0, 1, 2, 5}}
       \cup If("pos", {O("pos", <<>>)}) \cup (IF t.k = "fopen" THEN {} ELSE {O("est", <<>>)}) \cup If("size", {O("size", <<>>)})
       \cup If("seek", {O("seek", <<p>>) : p \in IF t.k = "seekable" THEN s.lo..s.hi ELSE 0..n})
       \cup If("skip", IF ~Det(t) THEN {} ELSE {O("skip", <<p>>) : p \in 0..((IF t.k = "seekable" THEN s.hi ELSE n) - s.pos)})
       \cup If("rewind", IF t.k = "seekable" /\ s.lo # 0 THEN {} ELSE {O("rewind", <<>>)})
       \cup If("restart", {O("restart", <<p>>) : p \in 0..(n - 1)})
       \cup If("peek", {O("peek", <<k>>) : k \in 0..3}) \cup If("peekn", {O("peekn", <<k, p>>) : k \in 1..3, p \in 0..Min(2, n - s.pos)})
       \cup If("skippeeked", IF ~Det(t) THEN {} ELSE {O("skippeeked", <<k>>) : k \in 0..Max(0, s.hi - s.pos)})
       \cup If("clear", {O("clear", <<>>)})
       \cup If("seekcur", IF ~Det(t) THEN {} ELSE {O("seekcur", <<p - s.pos>>) : p \in 0..n}) \cup If("seekend", {O("seekend", <<p - n>>) : p \in 0..n})
Bound(c, s) == TRUE
\* small compositions of every kind, each explored exhaustively
M(n, b) == [k |-> "mem", n |-> n, b |-> b]
F(n, b) == [k |-> "file", n |-> n, b |-> b]
L(k, n, b) == [k |-> k, n |-> n, b |-> b]
W(k, h) == [k |-> k, h |-> h]
B(h, z) == [k |-> "buf", h |-> h, z |-> z]
P(h, p) == [k |-> "part", h |-> h, p |-> p]
PF(n, b, p) == [k |-> "pfile", n |-> n, b |-> b, p |-> p]
Mu(hs) == [k |-> "multi", hs |-> hs]
Bad(n, b, a, h) == [k |-> "bad", n |-> n, b |-> b, at |-> a, how |-> h]
Ch(n, b, z) == [k |-> "chunk", n |-> n, b |-> b, z |-> z]
E0 == [k |-> "empty"]
Trees == {M(5, 1), M(0, 1), F(5, 1), F(0, 2), L("path", 4, 3), L("pooled", 5, 1), L("mmap", 5, 1), L("mmap", 0, 1), L("raw", 5, 1), B(L("raw", 5, 1), 2), P(L("raw", 5, 1), <<2, 3, 0, 1>>),
          PF(8, 1, <<2, 3>>), PF(8, 1, <<0, 2, 2, 0, 4, 3>>), PF(8, 1, <<5, 2, 0, 2, 0, 0>>), PF(5, 1, <<3, 4>>),
          P(F(8, 1), <<6, 2, 1, 0, 1, 2>>), P(M(8, 1), <<0, 0, 3, 2, 0, 0>>), P(M(4, 1), <<2, 3>>), P(Mu(<<F(3, 1), F(3, 2)>>), <<1, 4>>),
          Mu(<<M(2, 1), M(0, 1), M(3, 2)>>), Mu(<<F(2, 1), PF(8, 1, <<1, 2>>), PF(8, 1, <<3, 2>>), PF(8, 1, <<0, 1>>)>>), Mu(<<>>), Mu(<<E0, F(2, 1), E0>>),
          Mu(<<Mu(<<M(1, 1), M(1, 2)>>), M(2, 3)>>), Mu(<<P(F(5, 1), <<1, 2>>), F(1, 1)>>), Mu(<<Ch(3, 1, 1), Ch(3, 2, 2)>>), Mu(<<Bad(3, 1, 2, 0), M(2, 2)>>), Mu(<<M(2, 1), Bad(2, 1, 0, 1)>>),
          B(M(6, 1), 2), B(F(5, 1), 3), B(Ch(5, 1, 2), 4), B(Bad(5, 1, 3, 0), 2), B(Bad(5, 1, 3, 1), 4), B(Mu(<<F(2, 1), F(3, 2)>>), 2), B(M(0, 1), 2),
          W("stats", F(4, 1)), W("shared", M(4, 1)), W("peek", M(4, 1)), W("peek", Ch(4, 1, 2)), W("peek", Bad(4, 1, 2, 0)), W("seekable", W("peek", M(4, 1))), W("seekable", W("peek", Ch(4, 1, 1))),
          W("seekable", W("peek", Bad(3, 1, 2, 1))),
          W("fopen", F(4, 1)), W("fopen", PF(8, 1, <<4, 2, 1, 2>>)), W("fopen", Mu(<<F(2, 1), F(2, 2)>>)), W("fopen", Bad(4, 1, 2, 1)), Bad(4, 1, 2, 0), Ch(5, 1, 2), E0}
Confs == {[t |-> t, t2 |-> IF t.k \in {"mem", "file", "mmap"} THEN F(5, 1) ELSE Mu(<<M(2, 1), M(0, 1), M(3, 2)>>)] : t \in Trees}
====
