---- MODULE StreamM ----
(* eckit::Stream over any medium: what is written is a sequence of typed items, which come out as they went in.
   An item is [t: type, v: value (text), n: bytes of a string or blob, ok: whole (not cut)]. *)
EXTENDS Integers, Sequences, TLC
\* cap: bytes the medium can hold (-1: no limit)
Init0(c) == [w |-> TRUE, T |-> <<>>, p |-> 1, b |-> 0, cap |-> c.cap, dead |-> FALSE]
Tag(t) == CASE t = "bool" -> "int" [] t = "cstr" -> "string" [] t = "mem" -> "blob" [] OTHER -> t
Size(t, n) == CASE t \in {"char", "uchar"} -> 2 [] t \in {"int", "uint", "short", "ushort", "long", "ulong"} -> 5 [] t \in {"llong", "ullong", "double"} -> 9
  [] t \in {"string", "blob"} -> 5 + n [] t = "lblob" -> 9 + n [] t = "exc" -> 6 + n [] t \in {"start", "end"} -> 1
R(s, r) == {[s |-> s, r |-> r]}
Ok(s, v) == R(s, <<"ok", v>>)
Item(t, v, n) == [t |-> Tag(t), v |-> v, n |-> n, ok |-> TRUE]
\* after an error the rest of the stream cannot be made sense of
Dead(s) == R([s EXCEPT !.dead = TRUE], <<"exc">>)
RECURSIVE Put(_, _)
Put(s, is) ==
  IF is = <<>> THEN Ok(s, 0)
  ELSE LET i == is[1]  z == Size(i.t, i.n) IN
       IF s.cap >= 0 /\ s.b + z > s.cap
       THEN R([s EXCEPT !.T = IF s.b < s.cap THEN Append(@, [i EXCEPT !.ok = FALSE]) ELSE @, !.b = s.cap, !.dead = TRUE], <<"exc">>)
       ELSE Put([s EXCEPT !.T = Append(@, i), !.b = @ + z], Tail(is))
\* the first n bytes of what was written
RECURSIVE Cut(_, _)
Cut(T, n) == IF T = <<>> \/ n = 0 THEN <<>>
             ELSE LET z == Size(T[1].t, T[1].n) IN IF z <= n THEN <<T[1]>> \o Cut(Tail(T), n - z) ELSE <<[T[1] EXCEPT !.ok = FALSE]>>
At(s, p) == IF p <= Len(s.T) THEN s.T[p] ELSE [t |-> "eof", v |-> "", n |-> 0, ok |-> TRUE]
RECURSIVE SkipEnd(_, _)
SkipEnd(s, p) == IF At(s, p).t = "end" THEN SkipEnd(s, p + 1) ELSE p
Bool(v) == IF v = "0" THEN "0" ELSE "1"
Get(s, t, n) ==
  LET p == SkipEnd(s, s.p)  i == At(s, p) IN
  IF ~i.ok THEN Dead(s)
  ELSE IF i.t = "exc" THEN R([s EXCEPT !.p = p + 1], <<"remote", i.v>>)
  ELSE IF i.t # Tag(t) \/ (i.t \in {"blob", "lblob"} /\ i.n # n) THEN Dead(s)
  ELSE Ok([s EXCEPT !.p = p + 1], IF t = "bool" THEN Bool(i.v) ELSE i.v)
(* objects: start, class name, contents, end.  Class n0: a long long and any number of objects; n1, a class derived from it: a string more. *)
Super(x) == IF x = "n1" THEN "n0" ELSE ""
IsA(x, c) == x = c \/ c = "*" \/ Super(x) = c
RECURSIVE ParseN(_, _, _), Parse(_, _, _), ParseKids(_, _, _)
Fail == [ok |-> FALSE, p |-> 0, v |-> <<>>]
Want(s, p, t) == LET q == SkipEnd(s, p) IN At(s, q).t = t /\ At(s, q).ok
Nx(s, p) == SkipEnd(s, p) + 1
Parse(s, p, c) ==   \* next() then the object
  LET q == SkipEnd(s, p) IN
  IF At(s, q).t = "eof" THEN [ok |-> TRUE, p |-> q, v |-> <<"null">>]
  ELSE IF ~Want(s, p, "start") \/ ~Want(s, q + 1, "string") THEN Fail
  ELSE LET y == At(s, SkipEnd(s, q + 1)).v  x == CASE y = "6e30" -> "n0" [] y = "6e31" -> "n1" [] OTHER -> ""  r == Nx(s, q + 1) IN
       IF x \notin {"n0", "n1"} \/ ~IsA(x, c) THEN Fail ELSE ParseN(s, r, x)
ParseN(s, p, x) ==
  IF ~Want(s, p, "llong") \/ ~Want(s, Nx(s, p), "int") THEN Fail
  ELSE LET v == At(s, SkipEnd(s, p)).v  q == Nx(s, p)  k == ParseKids(s, Nx(s, q), At(s, SkipEnd(s, q)).v) IN
       IF ~k.ok THEN Fail
       ELSE IF x = "n1" /\ ~Want(s, k.p, "string") THEN Fail
       ELSE LET y == IF x = "n1" THEN At(s, SkipEnd(s, k.p)).v ELSE ""
                e == IF x = "n1" THEN Nx(s, k.p) ELSE k.p IN
            [ok |-> TRUE, p |-> IF At(s, e).t = "end" THEN e + 1 ELSE e, v |-> <<x, v, k.v, y>>]
ParseKids(s, p, n) ==
  IF n = "0" THEN [ok |-> TRUE, p |-> p, v |-> <<>>]
  ELSE LET k == Parse(s, p, "n0") IN
       IF ~k.ok \/ k.v = <<"null">> THEN Fail
       ELSE LET r == ParseKids(s, k.p, CASE n = "3" -> "2" [] n = "2" -> "1" [] OTHER -> "0") IN
            IF ~r.ok THEN Fail ELSE [ok |-> TRUE, p |-> r.p, v |-> <<k.v>> \o r.v]
\* an object to write, as the harness receives it: <<class, long long, children, string, its length>>
RECURSIVE Items(_), ItemsOf(_)
Num(n) == CASE n = 0 -> "0" [] n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3"
Items(o) == <<Item("start", "", 0), Item("string", IF o[1] = "n0" THEN "6e30" ELSE "6e31", 2), Item("llong", o[2], 0), Item("int", Num(Len(o[3])), 0)>> \o ItemsOf(o[3])
            \o (IF o[1] = "n1" THEN <<Item("string", o[4], o[5])>> ELSE <<>>) \o <<Item("end", "", 0)>>
ItemsOf(k) == IF k = <<>> THEN <<>> ELSE Items(k[1]) \o ItemsOf(Tail(k))
Steps(s, e) ==
  CASE e.op = "flip" -> IF ~s.w THEN {} ELSE Ok([s EXCEPT !.w = FALSE, !.dead = FALSE], 0)
    [] s.dead -> {}
    [] e.op = "bytes" -> IF ~s.w THEN {} ELSE Ok(s, s.b)
    [] e.op = "put" -> IF ~s.w THEN {} ELSE Put(s, <<Item(e.a[1], e.a[2], e.a[3])>>)
    [] e.op = "obj" -> IF ~s.w THEN {} ELSE Put(s, Items(e.a[1]))
    [] s.w -> {}
    [] e.op = "cut" -> IF s.p # 1 THEN {} ELSE Ok([s EXCEPT !.T = Cut(@, e.a[1])], 0)
    [] e.op = "get" -> Get(s, e.a[1], e.a[2])
    [] e.op = "next" -> LET p == SkipEnd(s, s.p)  i == At(s, p) IN
         IF i.t = "eof" THEN Ok([s EXCEPT !.p = p], 0) ELSE IF i.t = "start" THEN Ok([s EXCEPT !.p = p + 1], 1) ELSE Dead(s)
    [] e.op = "nextval" -> LET i == At(s, s.p) IN
         IF i.t = "eof" THEN R(s, <<"end">>) ELSE IF i.t # Tag(e.a[1]) \/ ~i.ok THEN Dead(s) ELSE Ok([s EXCEPT !.p = @ + 1], IF e.a[1] = "bool" THEN Bool(i.v) ELSE i.v)
    [] e.op = "endfound" -> Ok(s, IF At(s, s.p).t = "end" THEN 1 ELSE 0)
    [] e.op = "skipend" -> Ok([s EXCEPT !.p = IF At(s, @).t = "end" THEN @ + 1 ELSE @], 0)
    [] e.op = "revive" -> LET k == Parse(s, s.p, e.a[1]) IN IF k.ok THEN Ok([s EXCEPT !.p = k.p], k.v) ELSE Dead(s) \cup UNION {R([s EXCEPT !.dead = TRUE], <<"remote", i.v>>) : i \in {s.T[j] : j \in {j \in 1..Len(s.T) : s.T[j].t = "exc"}}}
    [] e.op = "rewind" -> Ok([s EXCEPT !.p = 1], 0)
    [] OTHER -> {}
Inv(s) == s.p \in 1..(Len(s.T) + 1) /\ \A i \in 1..(Len(s.T) - 1) : s.T[i].ok
O(o, a) == [op |-> o, a |-> a]
Ops(c, s) ==
  IF s.w THEN {O("flip", <<>>)} \cup (IF s.dead THEN {} ELSE {O("bytes", <<>>), O("put", <<"int", "0", 0>>), O("put", <<"string", "6162", 2>>), O("put", <<"llong", "7", 0>>), O("put", <<"start", "", 0>>),
                                O("put", <<"end", "", 0>>), O("put", <<"exc", "65", 1>>), O("put", <<"blob", "00ff", 2>>), O("obj", <<<<"n0", "5", <<>>, "", 0>>>>)})
  ELSE IF s.dead THEN {}
  ELSE {O("get", <<"int", 0>>), O("get", <<"bool", 0>>), O("get", <<"llong", 0>>), O("get", <<"string", 0>>), O("get", <<"blob", 2>>), O("next", <<>>), O("nextval", <<"string">>), O("nextval", <<"int">>),
        O("endfound", <<>>), O("skipend", <<>>), O("revive", <<"n0">>), O("revive", <<"*">>), O("rewind", <<>>)}
       \cup (IF s.p = 1 /\ s.cap < 0 THEN {O("cut", <<n>>) : n \in {1, 3, 5, 7}} ELSE {})
Bound(c, s) == Len(s.T) <= c.n
====
