---- MODULE FsM ----
(* What eckit::PathName does to the file system below its current directory.  t: place -> node, where a place is a sequence of names and a node
   0 (a directory) or the number of a file; f: file -> its bytes.  Files with several places are hard links. *)
EXTENDS PathLex
Init0(c) == [t |-> <<>> :> 0, f |-> <<>>, nx |-> 1]
R(s, r) == {[s |-> s, r |-> r]}
Ok(s, v) == R(s, <<"ok", v>>)
\* unspecified: whatever a directory says of its length, copies of directories and of files onto themselves
Unspec(s) == R(s, <<"any">>)
Exc(s) == R(s, <<"exc">>)
In(s, l) == l \in DOMAIN s.t
IsD(s, l) == In(s, l) /\ s.t[l] = 0
IsF(s, l) == In(s, l) /\ s.t[l] # 0
Parent(l) == SubSeq(l, 1, Len(l) - 1)
Pre(l) == {SubSeq(l, 1, i) : i \in 0..Len(l)}
\* a file where a directory should be
NotDir(s, l) == \E q \in Pre(l) \ {l} : IsF(s, q)
Upd(t, k, v) == [x \in DOMAIN t \cup {k} |-> IF x = k THEN v ELSE t[x]]
Rem(t, K) == [x \in DOMAIN t \ K |-> t[x]]
Kids(s, l) == {q \in DOMAIN s.t : Len(q) = Len(l) + 1 /\ Parent(q) = l}
Under(s, l) == {q \in DOMAIN s.t : l \in Pre(q)}
MkDirs(s, l) == [s EXCEPT !.t = [x \in DOMAIN s.t \cup Pre(l) |-> IF In(s, x) THEN s.t[x] ELSE 0]]
\* a new empty file, or b in the one there is; the directory it is in must exist
Write(s, l, b) == IF IsF(s, l) THEN [s EXCEPT !.f = [@ EXCEPT ![s.t[l]] = b]]
                  ELSE [s EXCEPT !.t = Upd(@, l, s.nx), !.f = Append(@, b), !.nx = @ + 1]
CanWrite(s, l) == ~IsD(s, l) /\ l # <<>> /\ IsD(s, Parent(l))
Bytes(s, l) == s.f[s.t[l]]
Move(s, a, b) == LET t1 == Rem(s.t, Under(s, a) \cup {b}) IN
  [s EXCEPT !.t = [x \in DOMAIN t1 \cup {b \o SubSeq(q, Len(a) + 1, Len(q)) : q \in Under(s, a)} |->
                    IF x \in DOMAIN t1 THEN t1[x] ELSE s.t[a \o SubSeq(x, Len(b) + 1, Len(x))]]]
Name(l) == l[Len(l)]
\* pattern: characters, '?' and '*'
RECURSIVE Glob(_, _)
Glob(g, n) == IF g = <<>> THEN n = <<>>
              ELSE IF g[1] = "*" THEN \E i \in 0..Len(n) : Glob(Tail(g), SubSeq(n, i + 1, Len(n)))
              ELSE n # <<>> /\ (g[1] = "?" \/ g[1] = n[1]) /\ Glob(Tail(g), Tail(n))
Spell(p, ns) == Tidy(JoinN(<<p>> \o ns))
Zeros(n) == [i \in 1..n |-> 0]
Min(a, b) == IF a < b THEN a ELSE b
\* p (spelled so) stands for a place at or below the current directory
Loc(p) == Place(p).ns
B(b) == IF b THEN 1 ELSE 0
Steps(s, e) ==
  LET p == Tidy(e.a[1])  l == Loc(e.a[1])  q == IF Len(e.a) > 1 /\ e.op \in {"rename", "link", "copy", "sameas"} THEN Loc(e.a[2]) ELSE <<>>
      \* with '/' at the end only a directory will do
      fs == Trail(p) /\ IsF(s, l)
  IN
  IF p = <<>> \/ Place(e.a[1]).up > 0 \/ Place(e.a[1]).abs \/ (Len(e.a) > 1 /\ e.op \in {"rename", "link", "copy", "sameas"} /\ (Trail(e.a[2]) \/ Trail(p) \/ Tidy(e.a[2]) = <<>> \/ Place(e.a[2]).up > 0)) THEN {} ELSE
  CASE e.op = "exists" -> Ok(s, B(In(s, l) /\ ~fs))
    [] e.op = "isdir" -> IF ~In(s, l) \/ fs THEN Exc(s) ELSE Ok(s, B(IsD(s, l)))
    [] e.op = "size" -> IF ~In(s, l) \/ fs THEN Exc(s) ELSE IF IsD(s, l) THEN Unspec(s) ELSE Ok(s, Len(Bytes(s, l)))
    [] e.op = "read" -> IF Trail(p) THEN {} ELSE IF IsD(s, l) THEN Unspec(s) ELSE IF ~In(s, l) THEN Exc(s) ELSE Ok(s, Bytes(s, l))
    [] e.op = "write" -> IF Trail(p) THEN {} ELSE IF ~CanWrite(s, l) THEN Exc(s) ELSE Ok(Write(s, l, e.a[2]), 0)
    \* over what has been reserved, exactly
    [] e.op = "over" -> IF Trail(p) THEN {} ELSE IF ~CanWrite(s, l) \/ (IsF(s, l) /\ Len(Bytes(s, l)) # Len(e.a[2])) THEN Exc(s) ELSE Ok(Write(s, l, e.a[2]), 0)
    [] e.op = "touch" -> IF Trail(p) THEN {} ELSE IF NotDir(s, l) THEN Exc(s) ELSE IF In(s, l) THEN Ok(s, 0) ELSE Ok(Write(MkDirs(s, Parent(l)), l, <<>>), 0)
    [] e.op = "mkdir" -> IF NotDir(s, l) \/ fs THEN Exc(s) ELSE IF IsF(s, l) THEN Exc(s) \cup Ok(s, 0) ELSE Ok(MkDirs(s, l), 0)
    [] e.op = "unlink" -> IF Trail(p) THEN {} ELSE IF NotDir(s, l) \/ IsD(s, l) THEN Exc(s) ELSE Ok([s EXCEPT !.t = Rem(@, {l})], 0)
    [] e.op = "rmdir" -> IF l = <<>> THEN {} ELSE IF NotDir(s, l) \/ IsF(s, l) \/ (IsD(s, l) /\ Kids(s, l) # {}) THEN Exc(s) ELSE Ok([s EXCEPT !.t = Rem(@, {l})], 0)
    [] e.op = "rename" -> IF l = <<>> \/ q = <<>> THEN {} ELSE
         IF ~In(s, l) \/ ~IsD(s, Parent(q)) THEN Exc(s) ELSE IF l = q THEN Ok(s, 0) ELSE
         IF IsD(s, l) THEN (IF l \in Pre(q) \/ IsF(s, q) \/ (IsD(s, q) /\ Kids(s, q) # {}) THEN Exc(s) ELSE Ok(Move(s, l, q), 0))
         ELSE IF IsD(s, q) THEN Exc(s) ELSE IF IsF(s, q) /\ s.t[q] = s.t[l] THEN Ok(s, 0) ELSE Ok(Move(s, l, q), 0)
    [] e.op = "link" -> IF ~IsF(s, l) \/ In(s, q) \/ q = <<>> \/ ~IsD(s, Parent(q)) THEN Exc(s) ELSE Ok([s EXCEPT !.t = Upd(@, q, s.t[l])], 0)
    [] e.op = "copy" -> IF IsD(s, l) THEN Unspec(s) \cup (IF CanWrite(s, q) THEN Unspec(Write(s, q, <<>>)) ELSE {}) ELSE
         IF IsF(s, l) /\ IsF(s, q) /\ s.t[l] = s.t[q] THEN Unspec(s) \cup Unspec(Write(s, q, <<>>)) ELSE IF ~In(s, l) THEN Exc(s) ELSE IF ~CanWrite(s, q) THEN Exc(s) ELSE Ok(Write(s, q, Bytes(s, l)), 0)
    [] e.op = "sameas" -> Ok(s, B(In(s, l) /\ In(s, q) /\ (l = q \/ (IsF(s, l) /\ s.t[l] = s.t[q]))))
    [] e.op = "empty" -> IF Trail(p) THEN {} ELSE IF ~CanWrite(s, l) THEN Exc(s) ELSE Ok(Write(s, l, <<>>), 0)
    [] e.op = "truncate" -> IF Trail(p) THEN {} ELSE IF ~IsF(s, l) THEN Exc(s) ELSE LET b == Bytes(s, l)  n == e.a[2] IN
                            Ok(Write(s, l, IF n <= Len(b) THEN SubSeq(b, 1, n) ELSE b \o Zeros(n - Len(b))), 0)
    [] e.op = "reserve" -> IF Trail(p) THEN {} ELSE IF IsD(s, l) THEN Unspec(s) ELSE IF IsF(s, l) /\ Bytes(s, l) # <<>> THEN Exc(s) ELSE IF ~CanWrite(s, l) THEN Exc(s) ELSE Ok(Write(s, l, Zeros(e.a[2])), 0)
    [] e.op = "children" -> IF ~IsD(s, l) THEN Exc(s) ELSE
         R(s, <<"sets", <<{Spell(p, <<Name(k)>>) : k \in {x \in Kids(s, l) : IsF(s, x)}}, {Spell(p, <<Name(k)>>) : k \in {x \in Kids(s, l) : IsD(s, x)}}>>>>)
    [] e.op = "rchildren" -> IF ~IsD(s, l) THEN Exc(s) ELSE LET X == Under(s, l) \ {l} N(k) == SubSeq(k, Len(l) + 1, Len(k)) IN
         R(s, <<"sets", <<{Spell(p, N(k)) : k \in {x \in X : IsF(s, x)}}, {Spell(p, N(k)) : k \in {x \in X : IsD(s, x)}}>>>>)
    \* p/pattern
    [] e.op = "match" -> IF ~IsD(s, l) THEN Exc(s) ELSE
         LET X == {k \in (IF e.a[3] = 1 THEN Under(s, l) ELSE Kids(s, l)) \ {l} : Glob(e.a[2], Name(k))} IN R(s, <<"sets", <<{Spell(p, SubSeq(k, Len(l) + 1, Len(k))) : k \in X}>>>>)
    [] e.op = "unique" -> IF Trail(p) THEN {} ELSE IF NotDir(s, l) THEN Unspec(s) ELSE Ok(MkDirs(s, Parent(l)), 1)
    [] OTHER -> {}
Inv(s) == /\ IsD(s, <<>>)
          /\ \A l \in DOMAIN s.t : l = <<>> \/ IsD(s, Parent(l))
          /\ \A l \in DOMAIN s.t : s.t[l] = 0 \/ s.t[l] \in 1..Len(s.f)
O(o, a) == [op |-> o, a |-> a]
Ops(c, s) ==
  LET P == {<<"a">>, <<"b">>, <<"a", "/", "a">>, <<"a", "/", "b">>} IN
  {O(o, <<x>>) : o \in {"exists", "touch", "mkdir", "unlink", "rmdir", "empty", "unique"}, x \in P}
  \cup {O("isdir", <<x>>) : x \in {y \in P : In(s, Loc(y))}} \cup {O(o, <<x>>) : o \in {"size", "read"}, x \in {y \in P : ~IsD(s, Loc(y))}}
  \cup {O(o, <<x, <<1, 2>>>>) : o \in {"write", "over"}, x \in P} \cup {O(o, <<x, y>>) : o \in {"rename", "link", "sameas"}, x \in P, y \in P}
  \cup {O("copy", <<x, y>>) : x \in {y \in P : ~IsD(s, Loc(y))}, y \in P} 
  \cup {O("truncate", <<x, n>>) : x \in P, n \in {1, 3}} \cup {O(o, <<x>>) : o \in {"children", "rchildren"}, x \in {<<".">>, <<"a">>}}
  \cup {O("match", <<x, g, r>>) : x \in {<<".">>, <<"a">>}, g \in {<<"*">>, <<"a">>, <<"?", "*">>}, r \in {0, 1}}
Bound(c, s) == s.nx <= c.n /\ Cardinality(DOMAIN s.t) <= 4
====
