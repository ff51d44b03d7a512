---- MODULE ValTree ----
(* the values eckit::Value can hold, as trees without identity:
     <<"n">>  <<"b", 0 or 1>>  <<"i", h, m, l>> (the integer (h * 2^22 + m) * 2^22 + l)  <<"d", k>> (k halves)  <<"s", bytes>>
     <<"l", trees>>  <<"m", pairs in key order>>  <<"o", pairs in order of insertion>>  *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL K == 4194304
Nil == <<"n">>
Norm(h, m, l) == <<"i", h + (m + (l \div K)) \div K, (m + (l \div K)) % K, l % K>>
Num(v) == Norm(0, 0, v)
Small(t) == (t[2] = 0 /\ t[3] < 256) \/ (t[2] = -1 /\ t[3] > K - 256)
IVal(t) == IF t[2] = 0 THEN t[3] * K + t[4] ELSE (t[3] - K) * K + t[4]
Sign(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
Rank(t) == CASE t[1] = "o" -> 0 [] t[1] = "m" -> 1 [] t[1] = "l" -> 2 [] t[1] = "n" -> 3 [] t[1] = "s" -> 4 [] t[1] \in {"i", "d"} -> 5 [] t[1] = "b" -> 6
First(q, d) == IF \E i \in 1..Len(q) : q[i] # 0 THEN q[CHOOSE i \in 1..Len(q) : q[i] # 0 /\ \A j \in 1..(i - 1) : q[j] = 0] ELSE d
Min(a, b) == IF a < b THEN a ELSE b
Sub(p, i) == [j \in 1..Len(p) |-> p[j][i]]
RECURSIVE Cmp(_, _)
CmpSeq(a, b) == First([i \in 1..Min(Len(a), Len(b)) |-> Cmp(a[i], b[i])], Sign(Len(a) - Len(b)))
CmpPairs(a, b) == First([i \in 1..Min(Len(a), Len(b)) |-> LET c == Cmp(a[i][1], b[i][1]) IN IF c # 0 THEN c ELSE Cmp(a[i][2], b[i][2])], Sign(Len(a) - Len(b)))
Halves(i, d) == IF Small(i) THEN Sign(2 * IVal(i) - d[2]) ELSE Sign(2 * i[2] + 1)
Cmp(a, b) ==
  IF Rank(a) # Rank(b) THEN Sign(Rank(a) - Rank(b))
  ELSE CASE a[1] = "n" -> 0
         [] a[1] = "b" -> Sign(a[2] - b[2])
         [] a[1] = "i" /\ b[1] = "i" -> First(<<Sign(a[2] - b[2]), Sign(a[3] - b[3]), Sign(a[4] - b[4])>>, 0)
         [] a[1] = "d" /\ b[1] = "d" -> Sign(a[2] - b[2])
         [] a[1] = "i" -> Halves(a, b)
         [] a[1] = "d" -> -Halves(b, a)
         [] a[1] = "s" -> First([i \in 1..Min(Len(a[2]), Len(b[2])) |-> Sign(a[2][i] - b[2][i])], Sign(Len(a[2]) - Len(b[2])))
         [] a[1] = "l" -> CmpSeq(a[2], b[2])
         [] a[1] = "m" -> CmpPairs(a[2], b[2])
         [] a[1] = "o" -> LET k == CmpSeq(Sub(a[2], 1), Sub(b[2], 1)) IN IF k # 0 THEN k ELSE CmpSeq(Sub(a[2], 2), Sub(b[2], 2))
IsMap(t) == t[1] \in {"m", "o"}
At(t, k) == {i \in 1..Len(t[2]) : Cmp(t[2][i][1], k) = 0}
HasKey(t, k) == At(t, k) # {}
Child(t, k) == t[2][CHOOSE i \in At(t, k) : TRUE][2]
PutKey(t, k, v) ==
  IF HasKey(t, k) THEN LET i == CHOOSE i \in At(t, k) : TRUE IN <<t[1], [t[2] EXCEPT ![i] = <<@[1], v>>]>>
  ELSE IF t[1] = "o" THEN <<"o", Append(t[2], <<k, v>>)>>
  ELSE LET n == Cardinality({i \in 1..Len(t[2]) : Cmp(t[2][i][1], k) < 0}) IN <<"m", SubSeq(t[2], 1, n) \o <<<<k, v>>>> \o SubSeq(t[2], n + 1, Len(t[2]))>>
RmKey(t, k) == <<t[1], SelectSeq(t[2], LAMBDA p : Cmp(p[1], k) # 0)>>
\* decimal
RECURSIVE Nat10(_)
Nat10(v) == IF v < 10 THEN <<48 + v>> ELSE Append(Nat10(v \div 10), 48 + (v % 10))
Dec(v) == IF v < 0 THEN <<45>> \o Nat10(-v) ELSE Nat10(v)
\* conversions.  <<"x">> is an exception, <<"any">> is not specified
Lower(q) == [i \in 1..Len(q) |-> IF q[i] \in 65..90 THEN q[i] + 32 ELSE q[i]]
Txt == [true |-> <<116, 114, 117, 101>>, false |-> <<102, 97, 108, 115, 101>>, on |-> <<111, 110>>, off |-> <<111, 102, 102>>, yes |-> <<121, 101, 115>>, no |-> <<110, 111>>]
X == <<"x">>
Any0 == <<"any">>
RECURSIVE Conv(_, _)
Conv(t, ty) ==
  IF t[1] = "l" THEN (IF Len(t[2]) = 1 THEN Conv(t[2][1], ty) ELSE X)
  ELSE IF t[1] \in {"n", "m", "o"} THEN X
  ELSE CASE ty = "int" -> (CASE t[1] = "i" -> IF (t[2] = 0 /\ t[3] < 512) \/ (t[2] = -1 /\ t[3] >= K - 512) THEN t ELSE X
                             [] t[1] = "b" -> Num(t[2])
                             [] t[1] = "d" -> IF t[2] % 2 = 0 THEN Num(t[2] \div 2) ELSE X
                             [] OTHER -> Any0)
         [] ty = "long" -> (CASE t[1] = "i" -> t [] t[1] = "b" -> Num(t[2]) [] t[1] = "d" -> IF t[2] % 2 = 0 THEN Num(t[2] \div 2) ELSE X [] OTHER -> Any0)
         [] ty = "size" -> (CASE t[1] = "i" -> IF t[2] < 0 THEN Any0 ELSE t [] t[1] = "b" -> Num(t[2])
                              [] t[1] = "d" -> IF t[2] % 2 # 0 THEN X ELSE IF t[2] < 0 THEN Any0 ELSE Num(t[2] \div 2) [] OTHER -> Any0)
         [] ty = "dbl" -> (CASE t[1] = "i" -> IF Small(t) /\ IVal(t) \in -100000..100000 THEN <<"d", 2 * IVal(t)>> ELSE Any0 [] t[1] = "b" -> <<"d", 2 * t[2]>> [] t[1] = "d" -> t [] OTHER -> Any0)
         [] ty = "bool" -> (CASE t[1] = "i" -> <<"b", IF t = Num(0) THEN 0 ELSE 1>> [] t[1] = "b" -> t [] t[1] = "d" -> X
                              [] t[1] = "s" -> LET w == Lower(t[2]) IN IF w \in {Txt.true, Txt.on, Txt.yes, <<49>>} THEN <<"b", 1>> ELSE IF w \in {Txt.false, Txt.off, Txt.no, <<48>>} THEN <<"b", 0>> ELSE X)
         [] ty = "str" -> (CASE t[1] = "i" -> IF Small(t) THEN <<"s", Dec(IVal(t))>> ELSE Any0 [] t[1] = "b" -> <<"s", IF t[2] = 1 THEN Txt.true ELSE Txt.false>> [] t[1] = "s" -> t [] OTHER -> Any0)
\* equal for hashing: the order of keys does not count
RECURSIVE HEq(_, _)
HEq(a, b) == IF IsMap(a) /\ IsMap(b) THEN Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : HasKey(b, a[2][i][1]) /\ HEq(a[2][i][2], Child(b, a[2][i][1]))
             ELSE IF a[1] # b[1] THEN FALSE ELSE IF a[1] = "l" THEN Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : HEq(a[2][i], b[2][i]) ELSE a = b
RECURSIVE WF(_)
WF(t) == CASE t[1] = "l" -> \A i \in 1..Len(t[2]) : WF(t[2][i])
           [] IsMap(t) -> /\ \A i, j \in 1..Len(t[2]) : i < j => (IF t[1] = "m" THEN Cmp(t[2][i][1], t[2][j][1]) < 0 ELSE Cmp(t[2][i][1], t[2][j][1]) # 0)
                          /\ \A i \in 1..Len(t[2]) : WF(t[2][i][2])
           [] OTHER -> TRUE
====
