---- MODULE JsonText ----
(* JSON: what value a text (a sequence of bytes) stands for.  Values as in ValTree, except that a real number is
   <<"d", sign, digits, exponent>>: sign * (d1.d2d3...) * 10^exponent without zeros at the ends, zero <<"d", 0, <<>>, 0>>. *)
EXTENDS ValTree, TLC
W == {32, 9, 10, 13}
Dg == 48..57
No == [ok |-> FALSE, any |-> FALSE, i |-> 0, v |-> Nil]
Y(i, v, a) == [ok |-> TRUE, any |-> a, i |-> i, v |-> v]
C(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE -1
RECURSIVE Ws(_, _)
Ws(t, i) == IF C(t, i) \in W THEN Ws(t, i + 1) ELSE i
RECURSIVE Digs(_, _)
Digs(t, i) == IF C(t, i) \in Dg THEN Digs(t, i + 1) ELSE i
Lit(t, i, w, v) == IF i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w THEN Y(i + Len(w), v, FALSE) ELSE No
\* the limbs of a decimal, <<h, m, l>>
L2 == 4194304
RECURSIVE Dec3(_, _)
Dec3(q, x) == IF q = <<>> THEN x ELSE LET l == x[3] * 10 + (Head(q) - 48) m == x[2] * 10 + (l \div L2) h == x[1] * 10 + (m \div L2) IN Dec3(Tail(q), <<h, m % L2, l % L2>>)
Neg3(x) == Norm(-x[1] - 1, L2 - 1 - x[2], L2 - x[3])
IntOf(neg, q) == LET x == Dec3(q, <<0, 0, 0>>) IN IF neg THEN Neg3(x) ELSE <<"i", x[1], x[2], x[3]>>
\* up to eighteen digits there is no doubt about an integer; up to fifteen none about a real
RECURSIVE Lead(_)
Lead(q) == IF q = <<>> \/ Head(q) # 48 THEN q ELSE Lead(Tail(q))
RECURSIVE Trail(_)
Trail(q) == IF q = <<>> \/ q[Len(q)] # 48 THEN q ELSE Trail(SubSeq(q, 1, Len(q) - 1))
RECURSIVE Small10(_, _)
Small10(q, x) == IF q = <<>> THEN x ELSE IF x > 1000000 THEN x ELSE Small10(Tail(q), 10 * x + (Head(q) - 48))
RealOf(neg, ip, fp, ex) == LET q == Lead(ip \o fp) z == Len(ip \o fp) - Len(q) d == Trail(q) IN
   IF d = <<>> THEN <<"d", 0, <<>>, 0>> ELSE <<"d", IF neg THEN -1 ELSE 1, d, Len(ip) - 1 - z + ex>>
Number(t, i0) ==
  LET neg == C(t, i0) = 45 i == IF neg THEN i0 + 1 ELSE i0 j == IF C(t, i) = 48 THEN i + 1 ELSE Digs(t, i) ip == SubSeq(t, i, j - 1)
      f == IF C(t, j) = 46 THEN Digs(t, j + 1) ELSE j fp == IF f = j THEN <<>> ELSE SubSeq(t, j + 1, f - 1)
      hase == C(t, f) \in {69, 101} sg == hase /\ C(t, f + 1) \in {43, 45} es == IF sg THEN f + 2 ELSE f + 1 ee == IF hase THEN Digs(t, es) ELSE f
      ev == IF hase THEN Small10(Lead(SubSeq(t, es, ee - 1)), 0) ELSE 0 ex == IF sg /\ C(t, f + 1) = 45 THEN -ev ELSE ev
  IN IF ip = <<>> \/ (C(t, j) = 46 /\ fp = <<>>) \/ (hase /\ ee = es) THEN No
     ELSE IF f = j /\ ~hase THEN Y(ee, IF Len(ip) > 18 THEN Nil ELSE IntOf(neg, ip), Len(ip) > 18)
     ELSE LET r == RealOf(neg, ip, fp, ex) IN Y(ee, r, Len(r[3]) > 15 \/ r[4] > 300 \/ r[4] < -300)
Hex(b) == IF b \in Dg THEN b - 48 ELSE IF b \in 97..102 THEN b - 87 ELSE IF b \in 65..70 THEN b - 55 ELSE -1
Hex4(t, i) == IF \E k \in 0..3 : Hex(C(t, i + k)) < 0 THEN -1 ELSE Hex(t[i]) * 4096 + Hex(t[i + 1]) * 256 + Hex(t[i + 2]) * 16 + Hex(t[i + 3])
Utf8(u) == IF u < 128 THEN <<u>> ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Esc == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)
\* from behind the quote; a: a control character was in it, which is not JSON and not specified
RECURSIVE Str(_, _, _, _)
Str(t, i, s, a) ==
  IF C(t, i) = -1 THEN No ELSE IF t[i] = 34 THEN Y(i + 1, <<"s", s>>, a)
  ELSE IF t[i] # 92 THEN Str(t, i + 1, Append(s, t[i]), a \/ t[i] < 32)
  ELSE IF C(t, i + 1) \in DOMAIN Esc THEN Str(t, i + 2, Append(s, Esc[t[i + 1]]), a)
  ELSE IF C(t, i + 1) # 117 THEN No
  ELSE LET u == Hex4(t, i + 2) IN
       IF u < 0 \/ u \in 56320..57343 THEN No
       ELSE IF u \in 55296..56319 THEN
            (IF C(t, i + 6) = 92 /\ C(t, i + 7) = 117 /\ Hex4(t, i + 8) \in 56320..57343
             THEN Str(t, i + 12, s \o Utf8(65536 + (u - 55296) * 1024 + (Hex4(t, i + 8) - 56320)), a) ELSE No)
       ELSE Str(t, i + 6, s \o Utf8(u), a)
RECURSIVE Val(_, _)
RECURSIVE Arr(_, _, _, _)
RECURSIVE Obj(_, _, _, _)
Arr(t, i, q, a) == LET x == Val(t, i) j == Ws(t, x.i) IN
   IF ~x.ok THEN No ELSE IF C(t, j) = 93 THEN Y(j + 1, <<"l", Append(q, x.v)>>, a \/ x.any) ELSE IF C(t, j) = 44 THEN Arr(t, j + 1, Append(q, x.v), a \/ x.any) ELSE No
Obj(t, i0, o, a) ==
  LET i == Ws(t, i0) k == IF C(t, i) = 34 THEN Str(t, i + 1, <<>>, FALSE) ELSE No IN
  IF ~k.ok THEN No ELSE LET c == Ws(t, k.i) IN
  IF C(t, c) # 58 THEN No ELSE LET x == Val(t, c + 1) IN
  IF ~x.ok THEN No ELSE LET j == Ws(t, x.i) n == PutKey(o, k.v, x.v) aa == a \/ x.any \/ k.any IN
  IF C(t, j) = 125 THEN Y(j + 1, n, aa) ELSE IF C(t, j) = 44 THEN Obj(t, j + 1, n, aa) ELSE No
Val(t, i0) ==
  LET i == Ws(t, i0) c == C(t, i) IN
  CASE c = 116 -> Lit(t, i, <<116, 114, 117, 101>>, <<"b", 1>>)
    [] c = 102 -> Lit(t, i, <<102, 97, 108, 115, 101>>, <<"b", 0>>)
    [] c = 110 -> Lit(t, i, <<110, 117, 108, 108>>, Nil)
    [] c = 34 -> Str(t, i + 1, <<>>, FALSE)
    [] c = 45 \/ c \in Dg -> Number(t, i)
    [] c = 91 -> IF C(t, Ws(t, i + 1)) = 93 THEN Y(Ws(t, i + 1) + 1, <<"l", <<>>>>, FALSE) ELSE Arr(t, i + 1, <<>>, FALSE)
    [] c = 123 -> IF C(t, Ws(t, i + 1)) = 125 THEN Y(Ws(t, i + 1) + 1, <<"o", <<>>>>, FALSE) ELSE Obj(t, i + 1, <<"o", <<>>>>, FALSE)
    [] OTHER -> No
Parse(t) == LET x == Val(t, 1) IN IF x.ok /\ Ws(t, x.i) = Len(t) + 1 THEN x ELSE No
\* what can be read back of what was written: reals without a fraction may come back as integers, maps in order of keys as ordered maps
Digits(d) == d[3] \o [k \in 1..(d[4] + 1 - Len(d[3])) |-> 48]
RECURSIVE Same2(_, _)
Same2(w, r) ==
  CASE w[1] = "d" -> IF r[1] = "d" THEN w = r ELSE r[1] = "i" /\ (IF w[2] = 0 THEN r = Num(0) ELSE w[4] >= Len(w[3]) - 1 /\ w[4] < 18 /\ r = IntOf(w[2] < 0, Digits(w)))
    [] w[1] = "l" -> r[1] = "l" /\ Len(w[2]) = Len(r[2]) /\ \A k \in 1..Len(w[2]) : Same2(w[2][k], r[2][k])
    [] IsMap(w) -> r[1] = "o" /\ Len(w[2]) = Len(r[2]) /\ \A k \in 1..Len(w[2]) : w[2][k][1] = r[2][k][1] /\ Same2(w[2][k][2], r[2][k][2])
    [] OTHER -> w = r
====
