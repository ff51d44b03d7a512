---- MODULE FracM ----
(* exact fractions <<numerator, denominator>>, reduced, denominator > 0.  Stateless. *)
EXTENDS Integers, Sequences
Init0(c) == [x |-> 0]
R(s, r) == {[s |-> s, r |-> r]}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Red(p, q) == LET g == Gcd(Abs(p), Abs(q)) s == IF q < 0 THEN -1 ELSE 1 IN <<s * (IF p < 0 THEN -(Abs(p) \div g) ELSE p \div g), Abs(q) \div g>>
F(p, q) == IF q = 0 THEN <<"exc">> ELSE <<"ok", Red(p, q)>>
Ar(op, p, q, r, t) == CASE op = "+" -> F(p * t + r * q, q * t) [] op = "-" -> F(p * t - r * q, q * t) [] op = "*" -> F(p * r, q * t) [] op = "/" -> F(p * t, q * r)
B(x) == IF x THEN 1 ELSE 0
Six(x, y) == <<B(x = y), B(x # y), B(x < y), B(x > y), B(x <= y), B(x >= y)>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Str(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)
FStr(f) == Str(f[1]) \o (IF f[2] = 1 THEN <<>> ELSE <<47>> \o Dec(f[2]))
Dig == 48..57
RECURSIVE Num(_)
Num(q) == IF q = <<>> THEN 0 ELSE 10 * Num(SubSeq(q, 1, Len(q) - 1)) + (q[Len(q)] - 48)
AllDig(q) == q # <<>> /\ \A k \in 1..Len(q) : q[k] \in Dig
Where(q, b) == {k \in 1..Len(q) : q[k] = b}
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN 1 ELSE 10 * Ten(n - 1)
IsInt(q) == AllDig(q) \/ (Len(q) > 1 /\ q[1] = 45 /\ AllDig(Tail(q)))
ToI(q) == IF q[1] = 45 THEN -Num(Tail(q)) ELSE Num(q)
\* [-]digits[.digits]
Decimal(q0) ==
  LET neg == q0 # <<>> /\ q0[1] = 45 q == IF neg THEN Tail(q0) ELSE q0 w == Where(q, 46) IN
  IF w = {} THEN (IF AllDig(q) THEN <<"ok", <<IF neg THEN -Num(q) ELSE Num(q), 1>>>> ELSE <<"no">>)
  ELSE LET k == CHOOSE k \in w : TRUE ip == SubSeq(q, 1, k - 1) fp == SubSeq(q, k + 1, Len(q)) IN
       IF \E j \in w : j # k THEN <<"no">> ELSE IF ~AllDig(ip) \/ ~AllDig(fp) THEN <<"no">> ELSE F((IF neg THEN -1 ELSE 1) * Num(ip \o fp), Ten(Len(fp)))
Steps(s, e) ==
  LET a == e.a IN
  CASE e.op = "mk" -> R(s, F(a[1], a[2]))
    [] e.op = "int" -> R(s, <<"ok", <<a[1], 1>>>>)
    [] e.op = "dbl" -> R(s, F(a[1], a[2]))
    [] e.op = "pstr" -> LET q == a[1] w == Where(q, 47) d == Decimal(q) IN
         IF w = {} THEN R(s, IF d[1] = "ok" /\ Abs(d[2][1]) <= 30000 THEN d ELSE <<"any">>) \* through a double: longer ones are approximations
         ELSE LET k == CHOOSE k \in w : TRUE p == SubSeq(q, 1, k - 1) r == SubSeq(q, k + 1, Len(q)) IN IF \E j \in w : j # k THEN R(s, <<"any">>) ELSE IF ~IsInt(p) \/ ~IsInt(r) THEN R(s, <<"any">>) ELSE R(s, F(ToI(p), ToI(r)))
    [] e.op = "pdec" -> LET q == a[1] d == Decimal(q) IN R(s, IF d[1] = "ok" THEN d ELSE IF \E k \in 2..Len(q) : q[k] = 45 THEN <<"exc">> ELSE IF \E j, k \in Where(q, 46) : j # k THEN <<"exc">> ELSE <<"any">>)
    [] e.op = "ar" -> R(s, Ar(a[1], a[2], a[3], a[4], a[5]))
    \* (a[2] * 2^a[6] + 1) / a[3] and a[4] / a[5]: the terms of the result may not fit; then it is approximate, or refused
    [] e.op = "big" -> IF a[1] = "<" THEN R(s, <<"ok", LET l == IF a[2] < 0 THEN -1 ELSE 1 IN Six(l, 0) \o Six(0, l)>>)
                       ELSE R(s, <<"exc">>) \cup (IF a[1] = "/" /\ a[4] = 0 THEN {} ELSE R(s, <<"ok", CASE a[1] \in {"+", "-"} -> a[2] [] a[1] = "*" -> a[2] * a[4] [] OTHER -> a[2] * a[5]>>))
    [] e.op = "self" -> R(s, Ar(a[1], a[2], a[3], a[2], a[3]))
    [] e.op = "fcmp" -> R(s, LET x == Red(a[1], a[2]) y == Red(a[3], a[4]) l == x[1] * y[2] r == y[1] * x[2] IN <<"ok", Six(l, r) \o Six(r, l)>>)
    [] e.op = "neg" -> R(s, F(-a[1], a[2]))
    [] e.op = "abs" -> R(s, F(Abs(a[1]), Abs(a[2])))
    [] e.op = "inv" -> R(s, F(a[2], a[1]))
    [] e.op = "ipart" -> R(s, LET f == Red(a[1], a[2]) IN <<"ok", IF f[1] < 0 THEN -((-f[1]) \div f[2]) ELSE f[1] \div f[2]>>)
    [] e.op = "dpart" -> R(s, LET f == Red(a[1], a[2]) IN F(IF f[1] < 0 THEN -((-f[1]) % f[2]) ELSE f[1] % f[2], f[2]))
    [] e.op = "toint" -> R(s, LET f == Red(a[1], a[2]) IN IF f[2] = 1 THEN <<"ok", f[1]>> ELSE <<"exc">>)
    [] e.op = "isint" -> R(s, <<"ok", B(Red(a[1], a[2])[2] = 1)>>)
    [] e.op = "fstr" -> R(s, <<"ok", FStr(Red(a[1], a[2]))>>)
    [] e.op = "todbl" -> R(s, <<"ok", 0>>)
    [] e.op = "stable" -> R(s, F(a[1], a[2]))
    [] e.op = "stream" -> R(s, <<"ok", Red(a[1], a[2]) \o Red(a[3], a[4])>>)
    [] OTHER -> {}
Inv(s) == TRUE
O(o, a) == [op |-> o, a |-> a]
RECURSIVE Strs(_, _)
Strs(al, n) == IF n = 0 THEN {<<>>} ELSE LET p == Strs(al, n - 1) IN p \cup {Append(q, b) : q \in {q \in p : Len(q) = n - 1}, b \in al}
One == {"mk", "neg", "abs", "ipart", "dpart", "toint", "isint", "fstr", "stable", "todbl", "dbl", "inv"}
Ops(c, s) ==
  CASE c.k = "pairs" -> LET P == (-c.n)..c.n Q == ((-c.n)..c.n) \ {0} IN
         {O("ar", <<op, p, q, r, t>>) : op \in {"+", "-", "*", "/"}, p, r \in P, q, t \in 1..c.n} \cup {O("fcmp", <<p, q, r, t>>) : p, r \in P, q, t \in 1..c.n} \cup {O("self", <<op, p, q>>) : op \in {"+", "-", "*", "/"}, p \in P, q \in Q}
         \cup {O(o, <<p, q>>) : o \in One, p \in (-12)..12, q \in ((-12)..12) \ {0}} \cup {O("mk", <<p, 0>>) : p \in P} \cup {O("int", <<p>>) : p \in P}
         \cup {O("big", <<op, p, q, r, t, k>>) : op \in {"+", "-", "*", "/", "<"}, p \in {-7, -1, 1, 5}, q \in {1, 3}, r \in {-9, -2, 0, 1, 8}, t \in {1, 7}, k \in {40, 58, 60}}
    [] c.k = "text" -> {O(o, <<q>>) : o \in {"pstr", "pdec"}, q \in Strs(c.al, c.n)}
    [] c.k = "dbl" -> {O("dbl", <<p, q>>) : p \in 0..c.n, q \in 1..c.n}
    [] OTHER -> {}
Bound(c, s) == TRUE
====
