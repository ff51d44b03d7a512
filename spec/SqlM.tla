---- MODULE SqlM ----
(* eckit::sql.  What a SELECT gives, from the contents of the tables: the rows of the product of the tables on which the condition is true (it is
   neither true nor false where an operand is missing; but 0 times anything is 0), their expressions; the first of equal rows if DISTINCT; in the order asked for; or one row for
   each group of rows with the same values of the expressions that are not aggregates, or one for all rows if there is none.
   A value is <<integer>>, or <<>> when missing; texts are numbered in their order.  Numbers in results are multiplied by Unit.
   e.a = <<rows of t, rows of u, tables, expressions, condition, distinct, order>>.  Stateless. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Unit == 176400
Init0(c) == [x |-> 0]
B(b) == IF b THEN <<1>> ELSE <<0>>
Col == [a |-> <<1, 1>>, b |-> <<1, 2>>, s |-> <<1, 3>>, c |-> <<2, 1>>, d |-> <<2, 2>>]
RECURSIVE Eval(_, _)
\* r = <<row of t, row of u>>
Eval(e, r) ==
  LET h == e[1] IN
  CASE h = "col" -> r[Col[e[2]][1]][Col[e[2]][2]]
    [] h \in {"num", "str"} -> <<e[2]>>
    [] h = "isnull" -> B(Eval(e[2], r) = <<>>)
    [] h = "notnull" -> B(Eval(e[2], r) # <<>>)
    [] h = "nvl" -> LET x == Eval(e[2], r) IN IF x = <<>> THEN Eval(e[3], r) ELSE x
    [] h = "*" /\ (Eval(e[2], r) = <<0>> \/ Eval(e[3], r) = <<0>>) -> <<0>>
    [] h = "neg" -> LET x == Eval(e[2], r) IN IF x = <<>> THEN x ELSE <<-x[1]>>
    [] h = "not" -> LET x == Eval(e[2], r) IN IF x = <<>> THEN x ELSE B(x[1] = 0)
    [] h = "and" -> LET x == Eval(e[2], r) y == Eval(e[3], r) IN IF x = <<0>> \/ y = <<0>> THEN <<0>> ELSE IF x = <<>> \/ y = <<>> THEN <<>> ELSE <<1>>
    [] h = "or" -> LET x == Eval(e[2], r) y == Eval(e[3], r) IN IF x \notin {<<>>, <<0>>} \/ y \notin {<<>>, <<0>>} THEN <<1>> ELSE IF x = <<>> \/ y = <<>> THEN <<>> ELSE <<0>>
    [] h = "in" -> LET x == Eval(e[2], r) IN IF x = <<>> THEN x ELSE B(\E i \in 1..Len(e[3]) : e[3][i] = x[1])
    [] h = "notin" -> LET x == Eval(e[2], r) IN IF x = <<>> THEN x ELSE B(\A i \in 1..Len(e[3]) : e[3][i] # x[1])
    [] h = "between" -> LET x == Eval(e[2], r) IN IF x = <<>> THEN x ELSE B(x[1] >= e[3] /\ x[1] <= e[4])
    [] OTHER -> LET x == Eval(e[2], r) y == Eval(e[3], r) IN
       IF x = <<>> \/ y = <<>> THEN <<>>
       ELSE CASE h = "+" -> <<x[1] + y[1]>> [] h = "-" -> <<x[1] - y[1]>> [] h = "*" -> <<x[1] * y[1]>>
              [] h = "=" -> B(x[1] = y[1]) [] h = "<>" -> B(x[1] # y[1]) [] h = "<" -> B(x[1] < y[1]) [] h = ">" -> B(x[1] > y[1]) [] h = "<=" -> B(x[1] <= y[1]) [] h = ">=" -> B(x[1] >= y[1])
IsAgg(e) == e[1] = "agg"
Text(e) == e[1] = "str" \/ (e[1] = "col" /\ e[2] = "s")
Sc(v, k) == IF v = <<>> THEN v ELSE <<v[1] * k>>
Show(e, v) == IF Text(e) THEN v ELSE Sc(v, Unit)
\* rows: the product, the rows of t changing fastest
Product(T, U, from) ==
  CASE from = "t" -> [i \in 1..Len(T) |-> <<T[i], <<>>>>]
    [] from = "u" -> [i \in 1..Len(U) |-> <<<<>>, U[i]>>]
    [] OTHER -> [i \in 1..(Len(T) * Len(U)) |-> <<T[((i - 1) % Len(T)) + 1], U[((i - 1) \div Len(T)) + 1]>>]
True(v) == v # <<>> /\ v[1] # 0
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Max2(x, y) == IF x > y THEN x ELSE y
\* aggregate of the rows G, scaled
Agg(e, G) ==
  LET all == [i \in 1..Len(G) |-> Eval(e[3], G[i])]
      vs == LET p == SelectSeq(all, LAMBDA v : v # <<>>) IN [i \in 1..Len(p) |-> p[i][1]]
      n == Len(vs)
      k == IF Text(e[3]) THEN 1 ELSE Unit
  IN CASE e[2] = "count" -> <<n * Unit>>
       [] e[2] = "first" -> Sc(all[1], k)
       [] e[2] = "last" -> Sc(all[Len(all)], k)
       [] n = 0 -> <<>>
       [] e[2] = "sum" -> <<Sum(vs) * Unit>>
       [] e[2] = "avg" -> <<Sum(vs) * (Unit \div n)>>
       [] e[2] = "var" -> <<(n * Sum([i \in 1..n |-> vs[i] * vs[i]]) - Sum(vs) * Sum(vs)) * (Unit \div (n * n))>>
       [] e[2] = "max" -> <<(CHOOSE m \in Range(vs) : \A x \in Range(vs) : x <= m) * Unit>>
       [] e[2] = "min" -> <<(CHOOSE m \in Range(vs) : \A x \in Range(vs) : x >= m) * Unit>>
\* missing before all others
Less(v, w) == IF v = <<>> \/ w = <<>> THEN v = <<>> /\ w # <<>> ELSE v[1] < w[1]
RECURSIVE Before(_, _, _)
\* keys x before y, asc: which of them ascend
Before(x, y, asc) == IF x = <<>> THEN FALSE
                     ELSE LET p == IF asc[1] = 1 THEN x[1] ELSE y[1] q == IF asc[1] = 1 THEN y[1] ELSE x[1] IN
                          IF Less(p, q) THEN TRUE ELSE IF Less(q, p) THEN FALSE ELSE Before(Tail(x), Tail(y), Tail(asc))
\* stable; q: sequence of <<keys, row>>
RECURSIVE Insert(_, _, _)
Insert(q, x, asc) == IF q = <<>> THEN <<x>> ELSE IF Before(x[1], q[Len(q)][1], asc) THEN Append(Insert(SubSeq(q, 1, Len(q) - 1), x, asc), q[Len(q)]) ELSE Append(q, x)
RECURSIVE Sort(_, _, _)
Sort(q, acc, asc) == IF q = <<>> THEN acc ELSE Sort(Tail(q), Insert(acc, Head(q), asc), asc)
RECURSIVE Firsts(_, _)
\* the first of those with equal rows
Firsts(q, acc) == IF q = <<>> THEN acc ELSE Firsts(Tail(q), IF \E i \in 1..Len(acc) : acc[i][2] = q[1][2] THEN acc ELSE Append(acc, q[1]))
Const(x, n) == [i \in 1..n |-> x]
Query(a) ==
  LET sel == a[4] ord == a[7] n == Len(sel)
      rows == SelectSeq(Product(a[1], a[2], a[3]), LAMBDA r : a[5] = <<>> \/ True(Eval(a[5][1], r)))
      plain == SelectSeq(sel, LAMBDA e : ~IsAgg(e))
      keyOf(r) == [i \in 1..Len(plain) |-> Show(plain[i], Eval(plain[i], r))]
      groups == LET f == Firsts([i \in 1..Len(rows) |-> <<<<>>, keyOf(rows[i])>>], <<>>) IN Sort([i \in 1..Len(f) |-> <<f[i][2], f[i][2]>>], <<>>, Const(1, Len(plain)))
      of(k) == SelectSeq(rows, LAMBDA r : keyOf(r) = k)
      pos(i) == Cardinality({j \in 1..i : ~IsAgg(sel[j])})
      out(k) == LET G == of(k) IN [i \in 1..n |-> IF IsAgg(sel[i]) THEN Agg(sel[i], G) ELSE k[pos(i)]]
      result == IF Len(plain) = n THEN [i \in 1..Len(rows) |-> [j \in 1..n |-> Show(sel[j], Eval(sel[j], rows[i]))]] ELSE [g \in 1..Len(groups) |-> out(groups[g][1])]
      key(i) == [k \in 1..Len(ord) |-> IF ord[k][1] = "i" THEN result[i][ord[k][2]] ELSE Show(ord[k][2], Eval(ord[k][2], rows[i]))]
      keyed == LET q == [i \in 1..Len(result) |-> <<key(i), result[i]>>] IN IF a[6] = 1 THEN Firsts(q, <<>>) ELSE q
      sorted == Sort(keyed, <<>>, [k \in 1..Len(ord) |-> ord[k][3]])
      \* no order asked for of the rows of two tables
      final == IF a[3] = "tu" /\ ord = <<>> THEN Sort([i \in 1..Len(sorted) |-> <<sorted[i][2], sorted[i][2]>>], <<>>, Const(1, n)) ELSE sorted
  IN [i \in 1..Len(final) |-> final[i][2]]
Steps(s, e) ==
  LET a == e.a IN
  \* all aggregates and no rows: no row, or one row that says so
  IF \A i \in 1..Len(a[4]) : IsAgg(a[4][i]) THEN LET r == Query([a EXCEPT ![7] = <<>>]) IN {[s |-> s, r |-> <<"ok", r>>]} \cup (IF r # <<>> THEN {} ELSE {[s |-> s, r |-> <<"ok", <<[i \in 1..Len(a[4]) |-> IF a[4][i][2] = "count" THEN <<0>> ELSE <<>>]>>>>]})
  ELSE {[s |-> s, r |-> <<"ok", Query(a)>>]}
Inv(s) == TRUE
O(a) == [op |-> "select", a |-> a]
C(x) == <<"col", x>>
N(k) == <<"num", k>>
Rows(al, n) == UNION {[1..k -> al] : k \in 0..n}
Conds == {<<>>} \cup {<<w>> : w \in {<<"=", C("a"), N(1)>>, <<"or", <<"=", C("a"), N(1)>>, <<"=", C("b"), N(2)>>>>, <<"not", <<"<", C("a"), C("b")>>>>, <<"notnull", C("a")>>, <<"notin", C("a"), <<1, 5>>>>, <<"=", N(1), N(2)>>}}
Ops(c, s) ==
  CASE c.k = "one" ->
         {O(<<T, <<>>, "t", sel, w, d, o>>) : T \in Rows({<<x, y, <<1>>>> : x, y \in {<<>>, <<1>>, <<2>>}}, c.n), w \in Conds, d \in {0, 1}, o \in {<<>>, <<<<"i", 1, 0>>>>}, sel \in {<<C("a")>>, <<C("b"), <<"+", C("a"), C("b")>>>>}}
         \cup {O(<<T, <<>>, "t", sel, w, 0, o>>) : T \in Rows({<<x, y, <<1>>>> : x, y \in {<<>>, <<1>>, <<2>>}}, c.n), w \in Conds, o \in {<<>>}, sel \in {<<<<"agg", "count", C("a")>>, <<"agg", "sum", C("a")>>>>, <<C("b"), <<"agg", "max", C("a")>>, <<"agg", "count", N(1)>>>>}}
    [] c.k = "two" ->
         {O(<<T, U, "tu", sel, w, d, o>>) : T \in Rows({<<x, <<1>>, <<1>>>> : x \in {<<1>>, <<2>>}}, c.n), U \in Rows({<<x, y>> : x \in {<<1>>, <<2>>}, y \in {<<1>>, <<3>>}}, 2),
              w \in {<<>>, <<<<"=", C("a"), C("c")>>>>, <<<<"<", C("c"), C("a")>>>>, <<<<"and", <<"=", C("a"), C("c")>>, <<"=", C("d"), N(1)>>>>>>}, d \in {0, 1}, o \in {<<>>, <<<<"i", 1, 1>>, <<"i", 2, 0>>>>}, sel \in {<<C("a"), C("d")>>}}
         \cup {O(<<T, U, "tu", sel, w, 0, <<>>>>) : T \in Rows({<<x, <<1>>, <<1>>>> : x \in {<<1>>, <<2>>}}, c.n), U \in Rows({<<x, y>> : x \in {<<1>>, <<2>>}, y \in {<<1>>, <<3>>}}, 2),
              w \in {<<>>, <<<<"=", C("a"), C("c")>>>>}, sel \in {<<C("a"), <<"agg", "sum", C("d")>>>>, <<<<"agg", "count", C("a")>>, <<"agg", "max", C("c")>>>>}}
    [] OTHER -> {}
Bound(c, s) == TRUE
====
