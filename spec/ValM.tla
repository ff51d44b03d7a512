---- MODULE ValM ----
(* variables of type eckit::Value.  However they are copied, assigned, taken out of and put into one another, each is a value of its own:
   nothing done through one shows in another, and reading changes nothing *)
EXTENDS ValTree, TLC
Init0(c) == [v |-> [i \in 1..c.nv |-> Nil]]
\* down a path; {} if there is nothing there
RECURSIVE Walk(_, _)
Walk(t, p) == IF p = <<>> THEN {t} ELSE
  IF IsMap(t) THEN (IF HasKey(t, p[1]) THEN Walk(Child(t, p[1]), Tail(p)) ELSE {})
  ELSE IF t[1] = "l" /\ p[1][1] = "i" /\ Small(p[1]) /\ IVal(p[1]) \in 0..(Len(t[2]) - 1) THEN Walk(t[2][IVal(p[1]) + 1], Tail(p)) ELSE {}
\* the tree with the one at p, which is there, replaced
RECURSIVE Rep(_, _, _)
Rep(t, p, v) == IF p = <<>> THEN v ELSE
  IF IsMap(t) THEN PutKey(t, p[1], Rep(Child(t, p[1]), Tail(p), v)) ELSE LET i == IVal(p[1]) + 1 IN <<"l", [t[2] EXCEPT ![i] = Rep(@, Tail(p), v)]>>
Front(p) == SubSeq(p, 1, Len(p) - 1)
LastOf(p) == p[Len(p)]
R(s, r) == {[s |-> s, r |-> r]}
\* what is said of an operation that changes something: what all variables are now
Set(s, x, t) == LET n == [s EXCEPT !.v[x] = t] IN R(n, <<"ok", n.v>>)
Ok(s, v) == R(s, <<"ok", v>>)
Exc(s) == R(s, <<"exc">>)
Skip(s) == R(s, <<"skip">>)
Bool(b) == IF b THEN 1 ELSE 0
Arith(s, z, o, a, b) ==
  CASE a[1] = "s" /\ b[1] = "s" /\ o = "+" -> Set(s, z, <<"s", a[2] \o b[2]>>)
    [] a[1] = "l" /\ b[1] = "l" /\ o = "+" -> Set(s, z, <<"l", a[2] \o b[2]>>)
    [] a[1] = "i" /\ b[1] = "i" /\ Small(a) /\ Small(b) /\ IVal(a) \in -20000..20000 /\ IVal(b) \in -20000..20000 ->
         Set(s, z, Num(IF o = "+" THEN IVal(a) + IVal(b) ELSE IF o = "-" THEN IVal(a) - IVal(b) ELSE IVal(a) * IVal(b)))
    [] a[1] = "d" /\ b[1] = "d" /\ o \in {"+", "-"} -> Set(s, z, <<"d", IF o = "+" THEN a[2] + b[2] ELSE a[2] - b[2]>>)
    [] IsMap(a) \/ IsMap(b) -> Exc(s)
    [] OTHER -> Skip(s)
Steps(s, e) ==
  LET v == s.v a == e.a IN
  CASE e.op = "lit" -> Set(s, a[1], a[2])
    [] e.op = "cp" -> Set(s, a[1], v[a[2]])
    \* x[p] = a copy of y; what is above must be there
    [] e.op = "put" -> LET w == Walk(v[a[1]], Front(a[2])) IN
         IF w = {} THEN Skip(s) ELSE LET t == CHOOSE t \in w : TRUE IN
         IF IsMap(t) THEN Set(s, a[1], Rep(v[a[1]], Front(a[2]), PutKey(t, LastOf(a[2]), v[a[3]])))
         ELSE IF t[1] = "l" THEN (IF Walk(t, <<LastOf(a[2])>>) # {} THEN Set(s, a[1], Rep(v[a[1]], a[2], v[a[3]])) ELSE IF LastOf(a[2])[1] = "i" THEN Exc(s) ELSE Skip(s))
         ELSE Exc(s)
    \* x[p] read, of a variable that may not be changed by that: a key that is not there reads as nil
    [] e.op = "get" -> LET w == Walk(v[a[1]], a[2]) IN
         IF w # {} THEN R(s, <<"tree", CHOOSE t \in w : TRUE>>)
         ELSE LET u == IF a[2] = <<>> THEN {} ELSE Walk(v[a[1]], Front(a[2])) IN
              IF u = {} THEN Skip(s) ELSE LET t == CHOOSE t \in u : TRUE IN
              IF IsMap(t) THEN R(s, <<"tree", Nil>>) ELSE IF t[1] = "l" /\ LastOf(a[2])[1] # "i" THEN Skip(s) ELSE Exc(s)
    \* z = x[p]
    [] e.op = "take" -> LET w == Walk(v[a[2]], a[3]) IN IF w = {} THEN Skip(s) ELSE Set(s, a[1], CHOOSE t \in w : TRUE)
    [] e.op = "rm" -> LET w == Walk(v[a[1]], Front(a[2])) IN
         IF w = {} THEN Skip(s) ELSE LET t == CHOOSE t \in w : TRUE n == [s EXCEPT !.v[a[1]] = Rep(v[a[1]], Front(a[2]), RmKey(t, LastOf(a[2])))] IN
         IF ~IsMap(t) THEN Exc(s) ELSE R(n, <<"tree", IF HasKey(t, LastOf(a[2])) THEN Child(t, LastOf(a[2])) ELSE Nil>>)
    [] e.op = "has" -> LET t == v[a[1]] IN
         IF IsMap(t) THEN Ok(s, Bool(HasKey(t, a[2]))) ELSE IF t[1] = "l" THEN (IF a[2][1] # "i" THEN Skip(s) ELSE Ok(s, Bool(Walk(t, <<a[2]>>) # {})))
         ELSE IF t[1] = "n" THEN Ok(s, 0) ELSE Exc(s)
    [] e.op = "keys" -> IF IsMap(v[a[1]]) THEN R(s, <<"tree", <<"l", Sub(v[a[1]][2], 1)>>>>) ELSE Exc(s)
    [] e.op = "size" -> IF v[a[1]][1] = "l" THEN Ok(s, Len(v[a[1]][2])) ELSE Exc(s)
    [] e.op = "app" -> LET w == Walk(v[a[1]], a[2]) IN
         IF w = {} THEN Skip(s) ELSE LET t == CHOOSE t \in w : TRUE IN IF t[1] # "l" THEN Exc(s) ELSE Set(s, a[1], Rep(v[a[1]], a[2], <<"l", Append(t[2], v[a[3]])>>))
    [] e.op = "arith" -> Arith(s, a[1], a[2], v[a[3]], v[a[4]])
    [] e.op = "cmp" -> Ok(s, Cmp(v[a[1]], v[a[2]]))
    [] e.op = "conv" -> LET r == Conv(v[a[1]], a[2]) IN IF r = X THEN Exc(s) ELSE IF r = Any0 THEN R(s, r) ELSE R(s, <<"ok", r>>)
    \* out through a Stream and back; a clone
    [] e.op = "stream" -> Set(s, a[1], v[a[2]])
    [] e.op = "clone" -> Set(s, a[1], v[a[2]])
    \* equal values hash alike
    [] e.op = "hash" -> IF HEq(v[a[1]], v[a[2]]) THEN Ok(s, 1) ELSE R(s, <<"any">>)
    [] e.op = "head" -> IF v[a[1]][1] = "l" THEN R(s, <<"tree", IF v[a[1]][2] = <<>> THEN Nil ELSE Head(v[a[1]][2])>>) ELSE Skip(s)
    [] e.op = "tail" -> IF v[a[1]][1] = "l" THEN R(s, <<"tree", IF Len(v[a[1]][2]) < 2 THEN Nil ELSE <<"l", Tail(v[a[1]][2])>>>>) ELSE Skip(s)
    [] OTHER -> {}
RECURSIVE Size(_)
Size(t) == IF IsMap(t) THEN 1 + (IF t[2] = <<>> THEN 0 ELSE LET f[i \in 1..Len(t[2])] == Size(t[2][i][2]) + (IF i = 1 THEN 0 ELSE f[i - 1]) IN f[Len(t[2])])
           ELSE IF t[1] = "l" THEN 1 + (IF t[2] = <<>> THEN 0 ELSE LET f[i \in 1..Len(t[2])] == Size(t[2][i]) + (IF i = 1 THEN 0 ELSE f[i - 1]) IN f[Len(t[2])]) ELSE 1
Inv(s) == \A i \in DOMAIN s.v : WF(s.v[i]) /\ Cmp(s.v[i], s.v[i]) = 0 /\ \A j \in DOMAIN s.v : Cmp(s.v[i], s.v[j]) = -Cmp(s.v[j], s.v[i])
O(o, a) == [op |-> o, a |-> a]
Ks == {<<"s", <<97>>>>}
Paths(t) == {<<k>> : k \in Ks} \cup {<<Num(0)>>} \cup {<<a, b>> : a, b \in Ks \cup {Num(0)}}
Ops(c, s) ==
  LET V == 1..c.nv IN
  {O("lit", <<x, t>>) : x \in V, t \in {Num(1)} \cup {<<k, <<>>>> : k \in c.k}} \cup {O("cp", <<x, y>>) : x, y \in V} \cup UNION {{O("put", <<x, p, y>>) : p \in Paths(0), y \in V} : x \in V}
  \cup {O("get", <<x, p>>) : x \in V, p \in Paths(0)} \cup {O("take", <<z, x, p>>) : z, x \in V, p \in Paths(0)} \cup {O("rm", <<x, p>>) : x \in V, p \in Paths(0)}
  \cup {O("app", <<x, p, y>>) : x, y \in V, p \in {<<>>} \cup Paths(0)} \cup {O("cmp", <<x, y>>) : x, y \in V} \cup (IF "l" \in c.k THEN {O("arith", <<x, "+", x, y>>) : x, y \in V} ELSE {})
  \cup {O(o, <<x>>) : o \in {"keys", "size", "head", "tail"}, x \in V} \cup {O("has", <<x, k>>) : x \in V, k \in Ks \cup {Num(0)}} \cup {O("stream", <<x, x>>) : x \in V}
Bound(c, s) == \A i \in DOMAIN s.v : Size(s.v[i]) <= c.n  /\ (s.v[i][1] = "i" => IVal(s.v[i]) < 3)
====
