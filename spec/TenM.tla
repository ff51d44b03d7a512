---- MODULE TenM ----
(* Tensors: an array of numbers seen through a shape, first index fastest ("L") or last index fastest ("R").  Dense products too.
   Register: [l, sh, d]; sh = <<>> when empty. *)
EXTENDS Integers, Sequences, FiniteSets
Empty(l) == [l |-> l, sh |-> <<>>, d |-> <<>>]
Init0(c) == [t |-> [i \in 1..c.n |-> Empty("L")]]
R(s, r) == {[s |-> s, r |-> r]}
Ok(s) == R(s, <<"ok", 0>>)
Exc(s) == R(s, <<"exc">>)
Val(s, v) == R(s, <<"ok", v>>)
RECURSIVE Prod(_), SumQ(_), Index(_, _), IndexR(_, _)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
SumQ(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumQ(Tail(q))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* position, from 0, of index q in shape sh
Index(sh, q) == IF q = <<>> THEN 0 ELSE Head(q) + Head(sh) * Index(Tail(sh), Tail(q))
IndexR(sh, q) == Index(Rev(sh), Rev(q))
Pos(t, q) == 1 + (IF t.l = "L" THEN Index(t.sh, q) ELSE IndexR(t.sh, q))
\* index of position p (from 0), first fastest
RECURSIVE Unindex(_, _)
Unindex(sh, p) == IF sh = <<>> THEN <<>> ELSE <<p % Head(sh)>> \o Unindex(Tail(sh), p \div Head(sh))
\* the same tensor in the other layout
Flip(t) == IF t.l = "L" THEN [t EXCEPT !.l = "R", !.d = [p \in 1..Len(t.d) |-> t.d[1 + Index(t.sh, Rev(Unindex(Rev(t.sh), p - 1)))]]]
           ELSE [t EXCEPT !.l = "L", !.d = [p \in 1..Len(t.d) |-> t.d[1 + IndexR(t.sh, Unindex(t.sh, p - 1))]]]
Dot(x, y) == SumQ([i \in 1..Len(x) |-> x[i] * y[i]])
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Steps(s, e) ==
  LET a == e.a
      o == e.op
      t == s.t IN
  CASE o = "mk" -> Ok([s EXCEPT !.t[a[1]] = [l |-> a[2], sh |-> a[3], d |-> a[4]]])
    [] o = "cp" -> IF t[a[2]].sh = <<>> THEN R(s, <<"any">>) ELSE Ok([s EXCEPT !.t[a[1]] = t[a[2]]])
    [] o = "mv" -> Ok(IF a[1] = a[2] THEN s ELSE [s EXCEPT !.t[a[1]] = t[a[2]], !.t[a[2]] = Empty("L")])
    [] o = "swap" -> Ok([s EXCEPT !.t[a[1]] = t[a[2]], !.t[a[2]] = t[a[1]]])
    [] o = "resh" -> LET x == t[a[1]] IN   \* resized, then filled when the size is another
                     Ok([s EXCEPT !.t[a[1]] = [l |-> x.l, sh |-> a[2], d |-> IF x.sh # <<>> /\ Prod(a[2]) = Len(x.d) THEN x.d ELSE [i \in 1..Prod(a[2]) |-> a[3]]]])
    [] o = "fill" -> Ok([s EXCEPT !.t[a[1]].d = [i \in DOMAIN @ |-> a[2]]])
    [] o = "put" -> Ok([s EXCEPT !.t[a[1]].d[Pos(t[a[1]], a[2])] = a[3]])
    [] o = "get" -> Val(s, t[a[1]].d[Pos(t[a[1]], a[2])])
    [] o = "flip" -> IF t[a[2]].sh = <<>> THEN R(s, <<"any">>) ELSE Ok([s EXCEPT !.t[a[1]] = Flip(t[a[2]])])
    [] o = "strm" -> IF t[a[2]].sh = <<>> THEN R(s, <<"any">>) ELSE Ok([s EXCEPT !.t[a[1]] = t[a[2]]])
    [] o = "show" -> LET x == t[a[1]] IN IF x.sh = <<>> THEN Val(s, <<<<>>, <<>>>>) ELSE Val(s, <<x.sh, x.d, x.l>>)
    \* dimensions 2^a[2][i]: the logarithms of the size and of the strides
    [] o = "big" -> LET f == a[2] IN Val(s, <<SumQ(f), [i \in 1..Len(f) |-> IF a[1] = "L" THEN SumQ(SubSeq(f, 1, i - 1)) ELSE SumQ(SubSeq(f, i + 1, Len(f)))]>>)
    \* dense products of literals, as lists of rows
    [] o = "dot" -> IF Len(a[1]) # Len(a[2]) THEN Exc(s) ELSE Val(s, Dot(a[1], a[2]))
    [] o = "gemv" -> IF Len(a[1][1]) # Len(a[2]) THEN Exc(s) ELSE Val(s, [i \in 1..Len(a[1]) |-> Dot(a[1][i], a[2])])
    [] o = "gemm" -> IF Len(a[1][1]) # Len(a[2]) THEN Exc(s) ELSE Val(s, [i \in 1..Len(a[1]) |-> [j \in 1..Len(a[2][1]) |-> Dot(a[1][i], Col(a[2], j))]])
    [] OTHER -> {}
Inv(s) == \A i \in DOMAIN s.t : LET x == s.t[i] IN IF x.sh = <<>> THEN x.d = <<>> ELSE Len(x.d) = Prod(x.sh) /\ Flip(Flip(x)) = x
O(o, a) == [op |-> o, a |-> a]
Lits == {<<"L", <<2, 2>>, <<1, 2, 3, 4>>>>, <<"R", <<2, 3>>, <<1, 2, 3, 4, 5, 6>>>>, <<"L", <<2, 1, 3>>, <<1, 2, 3, 4, 5, 6>>>>, <<"R", <<2>>, <<7, 8>>>>}
Ix(t) == {q \in UNION {[1..k -> 0..2] : k \in {Len(t.sh)}} : \A i \in DOMAIN q : q[i] < t.sh[i]}
Ops(c, s) ==
  LET X == 1..c.n IN
  {O("mk", <<1>> \o l) : l \in Lits} \cup {O(o, <<x, y>>) : o \in {"cp", "mv", "swap", "flip", "strm"}, x \in X, y \in X} \cup {O("resh", <<x, f, 9>>) : x \in X, f \in {<<4>>, <<3, 2>>, <<6>>}}
  \cup {O("put", <<x, <<1, 0>>, 5>>) : x \in {x \in X : Len(s.t[x].sh) = 2 /\ s.t[x].sh[1] > 1}}
  \cup UNION {{O("get", <<x, q>>) : q \in Ix(s.t[x])} : x \in {x \in X : s.t[x].sh # <<>>}} \cup {O("show", <<x>>) : x \in X}
Bound(c, s) == TRUE
====
