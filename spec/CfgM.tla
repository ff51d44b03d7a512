---- MODULE CfgM ----
(* variables of type eckit::LocalConfiguration.  A name is a path of keys joined by the separator *)
EXTENDS ValTree, TLC
Emp == <<"o", <<>>>>
Init0(c) == [v |-> [i \in 1..c.nv |-> Emp]]
RECURSIVE Walk(_, _)
Walk(t, p) == IF p = <<>> THEN {t} ELSE IF IsMap(t) /\ HasKey(t, p[1]) THEN Walk(Child(t, p[1]), Tail(p)) ELSE {}
\* setting: what is on the way and is not there is made; "l" a list on the way (not specified), "x" something else
RECURSIVE Way(_, _)
Way(t, p) == IF IsMap(t) THEN (IF Len(p) = 1 \/ ~HasKey(t, p[1]) THEN "ok" ELSE Way(Child(t, p[1]), Tail(p))) ELSE IF t[1] = "l" THEN "l" ELSE "x"
RECURSIVE SetP(_, _, _)
SetP(t, p, v) == IF Len(p) = 1 THEN PutKey(t, p[1], v) ELSE PutKey(t, p[1], SetP(IF HasKey(t, p[1]) THEN Child(t, p[1]) ELSE Emp, Tail(p), v))
RECURSIVE RmP(_, _)
RmP(t, p) == IF Len(p) = 1 THEN RmKey(t, p[1]) ELSE PutKey(t, p[1], RmP(Child(t, p[1]), Tail(p)))
R(s, r) == {[s |-> s, r |-> r]}
Ok(s, v) == R(s, <<"ok", v>>)
Exc(s) == R(s, <<"exc">>)
Skip(s) == R(s, <<"skip">>)
Upd(s, x, t) == LET n == [s EXCEPT !.v[x] = t] IN R(n, <<"ok", n.v>>)
SetIn(s, x, p, t) == IF p = <<>> THEN Exc(s) ELSE LET w == Way(s.v[x], p) IN IF w = "ok" THEN Upd(s, x, SetP(s.v[x], p, t)) ELSE IF w = "l" THEN Skip(s) ELSE Exc(s)
Bool(b) == IF b THEN 1 ELSE 0
\* the typed reading of what was found
Vec(t, ty) == IF t[1] # "l" THEN X ELSE LET q == [i \in 1..Len(t[2]) |-> Conv(t[2][i], ty)] IN
   IF \E i \in 1..Len(q) : q[i] = X THEN (IF \E i \in 1..Len(q) : q[i] = Any0 THEN Any0 ELSE X) ELSE IF \E i \in 1..Len(q) : q[i] = Any0 THEN Any0 ELSE <<"l", q>>
Read(t, ty) == IF ty[1] = "v" THEN Vec(t, ty[2]) ELSE Conv(t, ty[2])
Kinds == <<"n", "b", "i", "d", "s", "l", "c">>
Kind(t) == IF IsMap(t) THEN "c" ELSE t[1]
\* lists of one kind throughout are of that kind, an empty list is of any; a list of several kinds is not specified
LKinds == <<"b", "i", "d", "s", "c">>
Is(t) == [i \in 1..7 |-> Bool(Kind(t) = Kinds[i])]
IsL(t) == [i \in 1..5 |-> Bool(t[1] = "l" /\ (t[2] = <<>> \/ Kind(t[2][1]) = LKinds[i]))]
Mixed(t) == t[1] = "l" /\ Cardinality({Kind(t[2][i]) : i \in 1..Len(t[2])}) > 1
Sep(s, x) == TRUE
RECURSIVE Merge(_, _)
Merge(t, q) == IF q = <<>> THEN t ELSE Merge(PutKey(t, q[1][1], q[1][2]), Tail(q))
Steps(s, e) ==
  LET v == s.v a == e.a IN
  CASE e.op = "new" -> Upd(s, a[1], Emp)
    [] e.op = "cp" -> Upd(s, a[1], v[a[2]])
    [] e.op = "set" -> SetIn(s, a[1], a[2], a[3])
    \* set(name, configuration), also with itself; set(name, list of configurations)
    [] e.op = "put" -> SetIn(s, a[1], a[2], v[a[3]])
    [] e.op = "puts" -> SetIn(s, a[1], a[2], <<"l", [i \in 1..Len(a[3]) |-> v[a[3][i]]]>>)
    [] e.op = "merge" -> Upd(s, a[1], Merge(v[a[1]], v[a[2]][2]))
    [] e.op = "rm" -> IF a[2] = <<>> \/ Walk(v[a[1]], a[2]) = {} THEN Upd(s, a[1], v[a[1]]) ELSE Upd(s, a[1], RmP(v[a[1]], a[2]))
    [] e.op = "has" -> Ok(s, Bool(Walk(v[a[1]], a[2]) # {}))
    [] e.op = "empty" -> Ok(s, Bool(v[a[1]][2] = <<>>))
    [] e.op = "keys" -> IF \E i \in 1..Len(v[a[1]][2]) : v[a[1]][2][i][1][1] # "s" THEN R(s, <<"any">>) ELSE R(s, <<"tree", <<"l", Sub(v[a[1]][2], 1)>>>>)
    \* mode 0: get(name, variable); 1: getX(name); 2: getX(name, default)
    [] e.op = "get" -> LET w == Walk(v[a[1]], a[2]) IN
         IF w = {} THEN (IF a[4] = 0 THEN R(s, <<"none">>) ELSE IF a[4] = 1 THEN Exc(s) ELSE R(s, <<"default">>))
         ELSE LET r == Read(CHOOSE t \in w : TRUE, a[3]) IN IF r = X THEN Exc(s) ELSE IF r = Any0 THEN R(s, r) ELSE R(s, <<"ok", r>>)
    \* z = what is at p: mode 0 getSubConfiguration (empty if there is none), 1 LocalConfiguration(x, p), 2 get(p, z)
    [] e.op = "sub" -> LET w == Walk(v[a[2]], a[3]) IN
         IF w = {} THEN (IF a[4] = 0 THEN Upd(s, a[1], Emp) ELSE IF a[4] = 1 THEN Exc(s) ELSE R(s, <<"none">>))
         ELSE LET t == CHOOSE t \in w : TRUE IN IF t[1] # "o" THEN Skip(s) ELSE Upd(s, a[1], t)
    \* z = the k-th of the list of configurations at p
    [] e.op = "subs" -> LET w == Walk(v[a[2]], a[3]) IN
         IF w = {} THEN R(s, <<"none">>) ELSE LET t == CHOOSE t \in w : TRUE IN
         IF t[1] # "l" THEN Exc(s) ELSE IF a[4] \notin 1..Len(t[2]) THEN Ok(s, Len(t[2])) ELSE IF t[2][a[4]][1] # "o" THEN Skip(s) ELSE Upd(s, a[1], t[2][a[4]])
    [] e.op = "is" -> LET w == Walk(v[a[1]], a[2]) IN IF w = {} THEN Ok(s, [i \in 1..12 |-> 0]) ELSE LET t == CHOOSE t \in w : TRUE IN
         IF Mixed(t) THEN R(s, <<"any">>) ELSE Ok(s, Is(t) \o IsL(t))
    \* a value made elsewhere and still held there
    [] e.op = "lit" -> IF a[2][1] = "o" THEN Upd(s, a[1], a[2]) ELSE {}
    [] e.op = "hash" -> IF HEq(v[a[1]], v[a[2]]) THEN Ok(s, 1) ELSE R(s, <<"any">>)
    [] OTHER -> {}
RECURSIVE Size(_)
Size(t) == IF t[1] \in {"m", "o"} THEN 1 + (IF t[2] = <<>> THEN 0 ELSE LET f[i \in 1..Len(t[2])] == Size(t[2][i][2]) + (IF i = 1 THEN 0 ELSE f[i - 1]) IN f[Len(t[2])])
           ELSE IF t[1] = "l" THEN 1 + (IF t[2] = <<>> THEN 0 ELSE LET f[i \in 1..Len(t[2])] == Size(t[2][i]) + (IF i = 1 THEN 0 ELSE f[i - 1]) IN f[Len(t[2])]) ELSE 1
Inv(s) == \A i \in DOMAIN s.v : WF(s.v[i]) /\ s.v[i][1] = "o"
O(o, a) == [op |-> o, a |-> a]
A == <<"s", <<97>>>>
B == <<"s", <<98>>>>
Paths == {<<A>>, <<A, A>>, <<A, B>>, <<B>>}
Ops(c, s) ==
  LET V == 1..c.nv IN
  {O("set", <<x, p, t>>) : x \in V, p \in Paths, t \in {Num(1), <<"l", <<>>>>}} \cup {O("put", <<x, p, y>>) : x, y \in V, p \in Paths} \cup {O("cp", <<x, y>>) : x, y \in V}
  \cup {O("merge", <<x, y>>) : x, y \in V} \cup {O("rm", <<x, p>>) : x \in V, p \in Paths} \cup {O("has", <<x, p>>) : x \in V, p \in Paths}
  \cup {O("sub", <<z, x, p, m>>) : z, x \in V, p \in {<<A>>, <<A, A>>}, m \in 0..2} \cup {O("puts", <<x, <<A>>, <<y, z>>>>) : x, y, z \in V} \cup {O("subs", <<z, x, <<A>>, 1>>) : z, x \in V}
  \cup {O("get", <<x, p, <<"c", "long">>, m>>) : x \in V, p \in Paths, m \in 0..2} \cup {O("is", <<x, p>>) : x \in V, p \in Paths} \cup {O(o, <<x>>) : o \in {"empty", "keys"}, x \in V}
Bound(c, s) == \A i \in DOMAIN s.v : Size(s.v[i]) <= c.n
====
