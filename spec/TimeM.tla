---- MODULE TimeM ----
(* the calendar and the clock.  Days are counted from 2000-01-01 (day 0; Julian day number 2451545, a Saturday); a moment is <<day, second of the day>>.  Stateless. *)
EXTENDS Naturals, Integers, Sequences
Init0(c) == [x |-> 0]
R(s, r) == {[s |-> s, r |-> r]}
\* Gregorian calendar
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YLen(y) == IF Leap(y) THEN 366 ELSE 365
\* leap years before year y, from year 1
LeapsTo(y) == ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
Jan1(y) == 365 * (y - 2000) + LeapsTo(y) - LeapsTo(2000)
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE Before(y, m - 1) + MLen(y, m - 1)
Valid(y, m, d) == y >= 100 /\ m \in 1..12 /\ d \in 1..31 /\ d <= MLen(y, m)
Day(y, m, d) == Jan1(y) + Before(y, m) + d - 1
\* the year that contains day n
RECURSIVE YearOf(_, _)
YearOf(n, y) == IF n < Jan1(y) THEN YearOf(n, y - 1) ELSE IF n >= Jan1(y + 1) THEN YearOf(n, y + 1) ELSE y
RECURSIVE MonthOf(_, _, _)
MonthOf(y, k, m) == IF k < MLen(y, m) THEN <<y, m, k + 1>> ELSE MonthOf(y, k - MLen(y, m), m + 1)
Ymd(n) == LET y == YearOf(n, 2000 + (n \div 366)) IN MonthOf(y, n - Jan1(y), 1)
Dow(n) == (n + 5) % 7
Names == <<"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec">>
\* text
D2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Pad(n, w) == LET q == Dec(n) IN [k \in 1..(IF Len(q) < w THEN w - Len(q) ELSE 0) |-> 48] \o q
DStr(n) == LET f == Ymd(n) IN Dec(f[1]) \o <<45>> \o D2(f[2]) \o <<45>> \o D2(f[3])
TStr(t) == LET h == t \div 3600 IN (IF h < 10 THEN D2(h) ELSE Dec(h)) \o <<58>> \o D2((t \div 60) % 60) \o <<58>> \o D2(t % 60)
Dig == 48..57
AllDig(q) == \A k \in 1..Len(q) : q[k] \in Dig
RECURSIVE Num(_)
Num(q) == IF q = <<>> THEN 0 ELSE 10 * Num(SubSeq(q, 1, Len(q) - 1)) + (q[Len(q)] - 48)
RECURSIVE Split(_, _, _)
Split(q, b, cur) == IF q = <<>> THEN <<cur>> ELSE IF Head(q) = b THEN <<cur>> \o Split(Tail(q), b, <<>>) ELSE Split(Tail(q), b, Append(cur, Head(q)))
Exc == [k |-> "exc", n |-> 0]
Any == [k |-> "any", n |-> 0]
Got(n) == [k |-> "ok", n |-> n]
DateOf(y0, m, d0) == LET y == IF y0 < 100 THEN y0 + 1900 ELSE y0 d == IF d0 = 0 THEN 1 ELSE d0 IN IF Valid(y, m, d) THEN Got(Day(y, m, d)) ELSE Exc
MonthNames == << <<106,97,110>>, <<102,101,98>>, <<109,97,114>>, <<97,112,114>>, <<109,97,121>>, <<106,117,110>>, <<106,117,108>>, <<97,117,103>>, <<115,101,112>>, <<111,99,116>>, <<110,111,118>>, <<100,101,99>> >>
PDate(q) ==
  LET p == Split(q, 45, <<>>) IN
  IF \E k \in 1..Len(p) : p[k] = <<>> THEN Any
  ELSE IF Len(p) = 1 /\ \E m \in 1..12 : MonthNames[m] = q THEN Got(Day(1900, CHOOSE m \in 1..12 : MonthNames[m] = q, 1))
  ELSE IF \E k \in 1..Len(p) : ~AllDig(p[k]) THEN Any
  ELSE CASE Len(p) = 1 -> IF Len(q) \in {6, 8} THEN DateOf(Num(q) \div 10000, (Num(q) \div 100) % 100, Num(q) % 100) ELSE Exc
         [] Len(p) = 2 -> IF Len(p[1]) = 2 /\ Len(p[2]) = 2 THEN (IF Num(p[2]) = 0 THEN Exc ELSE DateOf(2004, Num(p[1]), Num(p[2])))
                          ELSE IF Len(p[1]) \notin {2, 4} \/ Len(p[2]) # 3 THEN Exc
                          ELSE LET y == IF Num(p[1]) < 100 THEN Num(p[1]) + 1900 ELSE Num(p[1]) n == Num(p[2]) IN IF n \in 1..YLen(y) THEN Got(Jan1(y) + n - 1) ELSE Exc
         [] Len(p) = 3 -> IF Len(p[1]) \notin {2, 4} \/ Len(p[2]) # 2 \/ Len(p[3]) # 2 THEN Exc ELSE DateOf(Num(p[1]), Num(p[2]), Num(p[3]))
         [] OTHER -> Exc
Hms(h, m, s, ext) == IF m >= 60 \/ s >= 60 \/ (~ext /\ (h >= 24 \/ h < 0 \/ m < 0 \/ s < 0)) THEN Exc ELSE Got(3600 * h + 60 * m + s)
Lower(b) == IF b \in 65..90 THEN b + 32 ELSE b
Tot(n, ext) == IF ~ext /\ (n < 0 \/ n >= 86400) THEN Exc ELSE Got(n)
\* number, unit, number, unit ...: seconds, or -1
Unit == <<100, 104, 109, 115>>
Secs == <<86400, 3600, 60, 1>>
RECURSIVE Units(_, _, _)
\* u: the unit that must come after
Units(q, u, cur) == IF q = <<>> THEN (IF cur = <<>> THEN 0 ELSE -1)
   ELSE IF Head(q) \in Dig THEN Units(Tail(q), u, Append(cur, Head(q)))
   ELSE IF cur = <<>> \/ ~\E k \in 1..4 : Unit[k] = Lower(Head(q)) /\ k > u THEN -1
   ELSE LET k == CHOOSE k \in 1..4 : Unit[k] = Lower(Head(q)) r == Units(Tail(q), k, <<>>) IN IF r < 0 THEN -1 ELSE r + Num(cur) * Secs[k]
PTime(q0, ext) ==
  LET neg == Len(q0) > 0 /\ q0[1] = 45 q == IF neg THEN Tail(q0) ELSE q0 sg == IF neg THEN -1 ELSE 1
      has(b) == \E k \in 1..Len(q) : Lower(q[k]) = b
  IN IF q = <<>> THEN Any
     ELSE IF \E k \in 1..Len(q) : q[k] \notin Dig /\ Lower(q[k]) \notin {46, 58, 100, 104, 109, 115} THEN Exc
     ELSE IF AllDig(q) THEN (IF ext THEN Got(sg * 3600 * Num(q)) ELSE IF Len(q) <= 2 THEN Hms(sg * Num(q), 0, 0, FALSE)
                              ELSE LET n == Num(q) IN IF neg /\ n # 0 THEN Exc ELSE IF Len(q) <= 4 THEN Hms(n \div 100, n % 100, 0, FALSE) ELSE Hms(n \div 10000, (n \div 100) % 100, n % 100, FALSE))
     ELSE IF has(58) THEN LET p == Split(q, 58, <<>>) IN
          IF has(46) \/ has(100) \/ has(104) \/ has(109) \/ has(115) \/ Len(p) > 3 THEN Exc
          ELSE IF \E k \in 1..Len(p) : p[k] = <<>> THEN (IF p[Len(p)] = <<>> /\ \A k \in 1..(Len(p) - 1) : p[k] # <<>> THEN Any ELSE Exc)
          ELSE LET m == Num(p[2]) s == IF Len(p) = 3 THEN Num(p[3]) ELSE 0 IN
               IF m >= 60 \/ s >= 60 THEN Exc ELSE Tot(sg * (3600 * Num(p[1]) + 60 * m + s), ext)
     ELSE IF has(46) THEN
          IF \E k \in 1..Len(q) : q[k] \notin Dig \cup {46} THEN Exc
          ELSE LET p == Split(q, 46, <<>>) IN IF Len(p) > 2 \/ p[2] = <<>> THEN Exc
          ELSE LET f == Num(p[2]) * 3600 m == IF Len(p[2]) = 1 THEN 10 ELSE IF Len(p[2]) = 2 THEN 100 ELSE IF Len(p[2]) = 3 THEN 1000 ELSE 10000 IN
               IF 2 * (f % m) = m THEN Any ELSE Tot(sg * (3600 * Num(p[1]) + (f \div m) + (IF 2 * (f % m) > m THEN 1 ELSE 0)), ext)
     ELSE LET n == Units(q, 0, <<>>) IN IF n >= 0 THEN Tot(sg * n, ext) ELSE IF \E k \in 1..(Len(q)) : q[k] \notin Dig /\ (k = 1 \/ q[k - 1] \notin Dig) THEN Any ELSE Exc
Add(d, t, k) == <<d + ((t + k) \div 86400), (t + k) % 86400>>
\* order of two moments
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
B(x) == IF x THEN 1 ELSE 0
Six(a, b) == <<B(a = b), B(a # b), B(Lt(a, b)), B(Lt(b, a)), B(~Lt(b, a)), B(~Lt(a, b))>>
Hour(p) == IF \E k \in 1..Len(p) : p[k] = <<>> \/ ~AllDig(p[k]) THEN Any ELSE IF Len(p) > 3 THEN Exc
   ELSE LET m == IF Len(p) > 1 THEN Num(p[2]) ELSE 0 s == IF Len(p) > 2 THEN Num(p[3]) ELSE 0 IN IF m >= 60 \/ s >= 60 THEN Exc ELSE Got(3600 * Num(p[1]) + 60 * m + s)
HStr(t) == LET h == t \div 3600 m == (t \div 60) % 60 s == t % 60 IN Dec(h) \o (IF m = 0 /\ s = 0 THEN <<>> ELSE <<58>> \o D2(m)) \o (IF s = 0 THEN <<>> ELSE <<58>> \o D2(s))
SemVer(q) == LET p == Split(q, 46, <<>>) IN IF Len(p) # 3 THEN <<>> ELSE IF \E k \in 1..3 : ~AllDig(p[k]) THEN <<>> ELSE [k \in 1..3 |-> Num(p[k])]
Give(p, f(_)) == IF p.k = "ok" THEN <<"ok", f(p.n)>> ELSE <<p.k>>
Id(n) == n
Steps(s, e) ==
  LET a == e.a IN
  CASE e.op = "year" -> R(s, <<"ok", <<Jan1(a[1])>> \o [m \in 1..12 |-> MLen(a[1], m)]>>)
    [] e.op = "date" -> R(s, Give(IF a[1] < 100 THEN DateOf(a[1], a[2], IF a[3] = 0 THEN 32 ELSE a[3]) ELSE IF Valid(a[1], a[2], a[3]) THEN Got(Day(a[1], a[2], a[3])) ELSE Exc, Id))
    [] e.op = "yday" -> R(s, IF a[2] \in 1..YLen(a[1]) THEN <<"ok", Jan1(a[1]) + a[2] - 1>> ELSE <<"exc">>)
    [] e.op = "pdate" -> R(s, Give(PDate(a[1]), Id))
    [] e.op = "fields" -> R(s, <<"ok", Ymd(a[1]) \o <<Dow(a[1])>> \o DStr(a[1])>>)
    [] e.op = "mname" -> R(s, <<"ok", MonthNames[Ymd(a[1])[2]]>>)
    [] e.op = "move" -> R(s, <<"ok", a[1] + a[2]>>)
    [] e.op = "ptime" -> R(s, Give(PTime(a[1], a[2] = 1), Id))
    [] e.op = "time" -> R(s, Give(Hms(a[1], a[2], a[3], a[4] = 1), Id))
    [] e.op = "secs" -> R(s, Give(Tot(a[1], a[2] = 1 /\ a[1] >= 0), Id))
    [] e.op = "clock" -> R(s, <<"ok", <<a[1] \div 3600, (a[1] \div 60) % 60, a[1] % 60, (a[1] \div 3600) * 10000 + ((a[1] \div 60) % 60) * 100 + (a[1] % 60)>> \o TStr(a[1])>>)
    [] e.op = "add" -> R(s, <<"ok", Add(a[1], a[2], a[3])>>)
    [] e.op = "diff" -> R(s, <<"ok", 86400 * (a[1] - a[3]) + a[2] - a[4]>>)
    [] e.op = "cmp" -> R(s, <<"ok", Six(<<a[1], a[2]>>, <<a[3], a[4]>>) \o Six(<<a[1], 0>>, <<a[3], 0>>) \o Six(<<0, a[2]>>, <<0, a[4]>>)>>)
    [] e.op = "round" -> R(s, <<"ok", Add(a[1], a[2], -((((86400 % a[3]) * ((a[1] + 2451545) % a[3])) + a[2]) % a[3]))>>)
    [] e.op = "str" -> R(s, <<"ok", DStr(a[1]) \o <<32>> \o TStr(a[2])>>)
    [] e.op = "iso" -> R(s, <<"ok", DStr(a[1]) \o <<84>> \o TStr(a[2]) \o <<90>>>>)
    [] e.op = "again" -> R(s, <<"ok", <<a[1], a[2]>>>>)
    [] e.op = "fmt" -> LET f == Ymd(a[1]) n == a[1] - Jan1(f[1]) w == (Dow(a[1]) + 1) % 7 IN
         R(s, <<"ok", <<f[1], f[2], f[3], a[2] \div 3600, (a[2] \div 60) % 60, a[2] % 60, n + 1, w>>>>)
    [] e.op = "hour" -> R(s, Give(Hour(Split(a[1], 58, <<>>)), HStr))
    [] e.op = "hstr" -> R(s, <<"ok", HStr(a[1])>>)
    [] e.op = "semver" -> R(s, IF SemVer(a[1]) = <<>> THEN <<"exc">> ELSE IF \E k \in 1..Len(a[1]) : a[1][k] = 46 /\ (k = 1 \/ k = Len(a[1]) \/ a[1][IF k = 1 THEN 1 ELSE k - 1] = 46) THEN <<"any">> ELSE <<"ok", Dec(SemVer(a[1])[1]) \o <<46>> \o Dec(SemVer(a[1])[2]) \o <<46>> \o Dec(SemVer(a[1])[3])>>)
    [] OTHER -> {}
Inv(s) == TRUE
O(o, a) == [op |-> o, a |-> a]
RECURSIVE Strs(_, _)
Strs(al, n) == IF n = 0 THEN {<<>>} ELSE LET p == Strs(al, n - 1) IN p \cup {Append(q, b) : q \in {q \in p : Len(q) = n - 1}, b \in al}
Ops(c, s) ==
  CASE c.k = "years" -> {O("year", <<y>>) : y \in c.lo..c.hi}
    [] c.k = "dates" -> {O("date", <<y, m, d>>) : y \in c.ys, m \in 0..14, d \in 0..33} \cup {O("yday", <<y, n>>) : y \in {y \in c.ys : y >= 100}, n \in {0, 1, 59, 60, 61, 365, 366, 367}} \cup {O("fields", <<Jan1(y) + k>>) : y \in {y \in c.ys : y >= 100}, k \in -2..61}
                        \cup {O("mname", <<Jan1(2000) + 31 * k>>) : k \in 0..11}
    [] c.k = "pdate" -> {O("pdate", <<c.pre \o q \o c.post>>) : q \in Strs(c.al, c.n)}
    [] c.k = "ptime" -> {O("ptime", <<c.pre \o q, x>>) : q \in Strs(c.al, c.n), x \in {0, 1}}
    [] c.k = "hms" -> {O("time", <<h, m, x, e>>) : h \in {-1, 0, 1, 23, 24, 100}, m \in {-1, 0, 59, 60}, x \in {-1, 0, 59, 60}, e \in {0, 1}} \cup {O("secs", <<n, e>>) : n \in {-1, 0, 1, 86399, 86400, 100000}, e \in {0, 1}}
                      \cup {O("clock", <<n>>) : n \in {0, 59, 60, 3599, 3600, 86399}} \cup {O("hour", <<q>>) : q \in Strs({48, 54, 58, 53}, 4)} \cup {O("semver", <<q>>) : q \in Strs({48, 56, 46, 120}, 5)}
    [] c.k = "dt" -> {O("add", <<d, t, k>>) : d \in c.ds, t \in c.ts, k \in c.ks} \cup {O("diff", <<x[1], t, x[2], u>>) : x \in {x \in c.ds \X c.ds : x[1] - x[2] \in -20000..20000}, t, u \in c.ts} \cup {O("cmp", <<d, t, f, u>>) : d, f \in c.ds, t, u \in c.ts}
                     \cup {O(o, <<d, t>>) : o \in {"str", "iso", "again", "fmt"}, d \in c.ds, t \in c.ts} \cup {O("round", <<d, t, k>>) : d \in c.ds, t \in c.ts, k \in {1, 60, 3600, 21600, 7, 25000}} \cup {O("move", <<d, k>>) : d \in c.ds, k \in {-366, -1, 0, 1, 30}}
    [] OTHER -> {}
Bound(c, s) == TRUE
====
