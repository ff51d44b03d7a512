---- MODULE LinM ----
(* Sparse matrices held in rows, columns from 0, entries <<row, column, value>> in order of rows; buffers hold dumps of them.
   Stored zeros are entries too: kept by copies, streams and dumps, dropped by what rebuilds from triplets. *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [r |-> 0, c |-> 0, e |-> <<>>]
Init0(c) == [m |-> [i \in 1..c.nm |-> Empty], b |-> [i \in 1..c.nb |-> Empty]]
R(s, r) == {[s |-> s, r |-> r]}
Ok(s) == R(s, <<"ok", 0>>)
Exc(s) == R(s, <<"exc">>)
Val(s, v) == R(s, <<"ok", v>>)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SumOf(_, _), Ins(_, _), SortT(_), Flat(_)
SumOf(q, f) == IF q = <<>> THEN 0 ELSE f[Head(q)] + SumOf(Tail(q), f)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Ins(q, t) == IF q = <<>> \/ Less(t, q[1]) THEN <<t>> \o q ELSE <<q[1]>> \o Ins(Tail(q), t)
SortT(q) == IF q = <<>> THEN <<>> ELSE Ins(SortT(Tail(q)), Head(q))
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
NZ(q) == LET F(t) == t[3] # 0 IN SelectSeq(q, F)
\* what triplets make, or Empty
Build(r, c, ts) ==
  LET e == NZ(ts) IN
  IF r > 0 /\ c > 0 /\ e # <<>> /\ Len(e) <= r * c /\ (\A i \in 1..Len(e) : e[i][1] < r /\ e[i][2] < c /\ (i > 1 => e[i - 1][1] <= e[i][1])) THEN [r |-> r, c |-> c, e |-> e] ELSE Empty
Put(s, x, m) == IF m = Empty THEN Exc(s) ELSE Ok([s EXCEPT !.m[x] = m])
Row(m, i) == LET F(t) == t[1] = i IN SelectSeq(m.e, F)
Sum(q) == SumOf([i \in 1..Len(q) |-> i], q)
Steps(s, e) ==
  LET a == e.a
      o == e.op
      m == s.m IN
  CASE o = "mk" -> Put(s, a[1], Build(a[2], a[3], a[4]))
    [] o = "own" -> Ok([s EXCEPT !.m[a[1]] = [r |-> a[2], c |-> a[3], e |-> a[4]]])  \* (sorted, not empty, zeros kept)
    [] o = "ident" -> Put(s, a[1], IF a[2] > 0 /\ a[3] > 0 THEN [r |-> a[2], c |-> a[3], e |-> [i \in 1..(IF a[2] < a[3] THEN a[2] ELSE a[3]) |-> <<i - 1, i - 1, 1>>]] ELSE Empty)
    [] o = "cp" -> Ok([s EXCEPT !.m[a[1]] = m[a[2]]])
    [] o = "mv" -> Ok(IF a[1] = a[2] THEN s ELSE [s EXCEPT !.m[a[1]] = m[a[2]], !.m[a[2]] = Empty])
    [] o = "swap" -> Ok([s EXCEPT !.m[a[1]] = m[a[2]], !.m[a[2]] = m[a[1]]])
    [] o = "tr" -> LET x == m[a[1]] IN Put(s, a[1], Build(x.c, x.r, SortT([i \in 1..Len(x.e) |-> <<x.e[i][2], x.e[i][1], x.e[i][3]>>])))
    [] o = "prune" -> LET x == m[a[1]]
                          F(t) == t[3] # a[2]
                          q == SelectSeq(x.e, F) IN Put(s, a[1], IF q = <<>> THEN Empty ELSE [x EXCEPT !.e = q])
    [] o = "red" -> LET y == m[a[2]] IN
                    IF Len(a[3]) > y.r THEN Exc(s)
                    ELSE Put(s, a[1], Build(Len(a[3]), y.c, Flat([i \in 1..Len(a[3]) |-> LET q == Row(y, a[3][i]) IN [k \in 1..Len(q) |-> <<i - 1, q[k][2], q[k][3]>>]])))
    [] o \in {"file", "strm"} -> IF m[a[2]] = Empty THEN R(s, <<"any">>) ELSE Ok([s EXCEPT !.m[a[1]] = m[a[2]]])
    [] o = "dump" -> IF m[a[2]] = Empty THEN R(s, <<"any">>) ELSE IF a[3] < 0 THEN Exc(s) ELSE Ok([s EXCEPT !.b[a[1]] = m[a[2]]])
    [] o = "load" -> IF s.b[a[2]] = Empty THEN R(s, <<"any">>) ELSE Ok([s EXCEPT !.m[a[1]] = s.b[a[2]]])
    [] o = "cut" -> IF s.b[a[1]] = Empty THEN R(s, <<"any">>) ELSE Exc(s)
    [] o = "set" -> IF a[2] <= Len(m[a[1]].e) THEN Ok([s EXCEPT !.m[a[1]].e[a[2]][3] = a[3]]) ELSE R(s, <<"any">>)
    [] o = "cols" -> IF m[a[1]] = Empty THEN R(s, <<"any">>) ELSE Ok([s EXCEPT !.m[a[1]].c = @ + a[2]])
    [] o = "show" -> Val(s, <<m[a[1]].r, m[a[1]].c, m[a[1]].e>>)
    [] o = "spmv" -> LET x == m[a[1]] IN
                     IF x.c # Len(a[2]) THEN Exc(s)
                     ELSE Val(s, [i \in 1..x.r |-> LET q == Row(x, i - 1) IN Sum([k \in 1..Len(q) |-> q[k][3] * a[2][q[k][2] + 1]])])
    [] o = "spmm" -> LET x == m[a[1]]   \* a[2]: the rows of the matrix, of a[3] columns
                     IN IF x.c # Len(a[2]) \/ x = Empty THEN (IF x = Empty THEN R(s, <<"any">>) ELSE Exc(s))
                        ELSE Val(s, [i \in 1..x.r |-> [j \in 1..a[3] |-> LET q == Row(x, i - 1) IN Sum([k \in 1..Len(q) |-> q[k][3] * a[2][q[k][2] + 1][j]])]])
    [] o = "dsptd" -> LET y == m[a[2]] IN  \* a[3] and a[4] are diagonals
                      IF y.r # Len(a[3]) \/ y.c # Len(a[4]) THEN Exc(s)
                      ELSE Ok([s EXCEPT !.m[a[1]] = [y EXCEPT !.e = [i \in 1..Len(y.e) |-> <<y.e[i][1], y.e[i][2], y.e[i][3] * a[3][y.e[i][1] + 1] * a[4][y.e[i][2] + 1]>>]]])
    [] OTHER -> {}
Good(m) == /\ m # Empty => (m.r > 0 /\ m.c > 0 /\ m.e # <<>>)
           /\ \A i \in 1..Len(m.e) : m.e[i][1] \in 0..(m.r - 1) /\ m.e[i][2] \in 0..(m.c - 1) /\ (i > 1 => m.e[i - 1][1] <= m.e[i][1])
Inv(s) == (\A i \in DOMAIN s.m : Good(s.m[i])) /\ (\A i \in DOMAIN s.b : Good(s.b[i]))
O(o, a) == [op |-> o, a |-> a]
Tris == << <<<<0, 1, 2>>, <<0, 0, 1>>>>, <<<<0, 1, 1>>, <<2, 0, 2>>>>, <<<<0, 0, 1>>, <<1, 0, 0>>>>, <<<<1, 0, 1>>, <<0, 1, 1>>>>, <<<<2, 0, 1>>, <<2, 1, 2>>>>, <<<<0, 0, 2>>>>, <<<<1, 1, 1>>>>, <<>> >>
Tri(c) == {Tris[i] : i \in 1..c.k}
Ops(c, s) ==
  LET X == 1..c.nm
      B == 1..c.nb IN
  {O("mk", <<x, r, k, t>>) : x \in {1}, r \in {1, 3}, k \in {2}, t \in Tri(c)} \cup {O("ident", <<x, 2, k>>) : x \in X, k \in {0, 1, 3}}
  \cup {O(o, <<x, y>>) : o \in {"cp", "mv", "swap", "file", "strm"}, x \in X, y \in X} \cup {O("tr", <<x>>) : x \in X} \cup {O("prune", <<x, v>>) : x \in X, v \in {0, 1, 2}}
  \cup {O("red", <<x, y, p>>) : x \in X, y \in X, p \in {<<0>>, <<1, 0>>, <<0, 0, 0>>, <<2, 2, 0>>}} \cup {O("dump", <<b, x, k>>) : b \in B, x \in X, k \in {-1, 0, 5}}
  \cup {O("load", <<x, b>>) : x \in X, b \in B} \cup {O("cut", <<b, k>>) : b \in B, k \in {0, 8, 100}} \cup {O("set", <<x, k, 0>>) : x \in X, k \in {1, 2}} \cup {O("cols", <<x, 1>>) : x \in X}
  \cup {O("show", <<x>>) : x \in X} \cup {O("spmv", <<x, v>>) : x \in X, v \in {<<1, 2>>, <<3, 1, 2>>}} \cup {O("spmm", <<x, v, 2>>) : x \in X, v \in {<<<<1, 2>>, <<3, 4>>>>}}
  \cup {O("dsptd", <<x, y, <<2, 0, 1>>, <<1, 2>>>>) : x \in X, y \in X}
Bound(c, s) == \A x \in 1..c.nm : s.m[x].c <= 3 /\ s.m[x].r <= 3 /\ Len(s.m[x].e) <= c.len /\ \A i \in 1..Len(s.m[x].e) : s.m[x].e[i][3] \in 0..c.v
====
