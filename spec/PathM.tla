---- MODULE PathM ----
(* eckit::PathName and LocalPathName as names: p is the path, d the place it stands for, which the operations are defined by. *)
EXTENDS PathLex
Init0(c) == [p |-> <<"/">>, d |-> Root, cwd |-> c.cwd, lp |-> c.lp]
R(s, r) == {[s |-> s, r |-> r]}
Ok(s, v) == R(s, <<"ok", v>>)
\* goes to spelling p of place d
To(s, p, d) == Ok([s EXCEPT !.p = p, !.d = d], p)
Steps(s, e) ==
  CASE e.op = "set" -> To(s, Tidy(e.a[1]), Place(e.a[1]))
    [] e.op = "div" -> LET j == Join(s.p, e.a[1])  d == IF s.p = <<>> THEN Place(e.a[1]) ELSE At(s.d, Place(<<".", "/">> \o e.a[1])) IN
                       To(s, Tidy(j), d)
    [] e.op = "app" -> To(s, Tidy(s.p \o e.a[1]), Place(s.p \o e.a[1]))
    [] e.op = "dir" -> LET p == DirName(s.p) IN To(s, p, Place(p))
    [] e.op = "base" -> LET p == BaseName(s.p, e.a[1] = 1) IN To(s, p, Place(p))
    [] e.op = "ext" -> Ok(s, Ext(s.p))
    [] e.op = "full" -> IF s.p = <<>> THEN Ok(s, <<>>) ELSE LET p == IF s.d.abs THEN s.p ELSE Tidy(s.cwd \o <<"/">> \o s.p) IN To(s, p, At(IF s.d.abs THEN Root ELSE Place(s.cwd), [s.d EXCEPT !.abs = FALSE]))
    [] e.op = "rel" -> IF s.lp = 0 \/ ~IsAbs(Tidy(e.a[1])) THEN {} ELSE IF ~s.d.abs THEN R(s, <<"exc">>) ELSE Ok(s, Tidy(RelPath(s.p, e.a[1])))
    [] e.op = "eq" -> Ok(s, IF s.p = Tidy(e.a[1]) THEN 1 ELSE 0)
    [] OTHER -> {}
Inv(s) == /\ Place(s.p) = s.d
          /\ Place(Tidy(s.p)) = s.d /\ Tidy(Tidy(s.p)) = Tidy(s.p)
          /\ \A q \in {Root, [Root EXCEPT !.ns = <<<<"a">>>>], [Root EXCEPT !.ns = <<<<"b">>, <<"a">>>>]} :
               s.d.abs => At(q, Place(RelPath(s.p, <<"/">> \o JoinN(q.ns)))) = s.d
O(o, a) == [op |-> o, a |-> a]
RECURSIVE Strs(_, _)
Strs(al, n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup {<<h>> \o t : h \in al, t \in Strs(al, n - 1)}
\* names of one character: every string over the alphabet
Ops(c, s) == {O("set", <<x>>) : x \in {y \in Strs(c.al, c.n) : y = <<>> \/ y[1] # "~"}}
             \cup (IF Len(s.p) > c.n - 2 \/ (s.p # <<>> /\ s.p[1] = "~") THEN {} ELSE {O(o, <<x>>) : o \in {"div", "app"}, x \in {<<"a">>, <<".", ".">>, <<"/", "b", "/">>, <<"a", ".", "b">>}} \cup {O("dir", <<>>)})
             \cup {O("base", <<0>>), O("base", <<1>>), O("ext", <<>>)}
             \cup (IF Len(s.p) > 1 THEN {} ELSE {O("full", <<>>)})
             \cup (IF s.lp = 1 /\ s.p # <<>> /\ s.p[1] # "~" THEN {O("rel", <<x>>) : x \in {<<"/">>, <<"/", "a", "/">>, <<"/", "b", "/", "a">>}} ELSE {})
Bound(c, s) == Len(s.p) <= c.n + 1
====
