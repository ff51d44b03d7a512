---- MODULE RecM ----
(* eckit::codec records.  A writer collects items under keys; a written record is that collection, appended to or replacing a file; reading a key of
   a record gives the item that was put last under it when the record was written, with every link followed, or fails - also when the bytes of the
   record have been damaged ("flips", "cuts": every read of a damaged copy of the file fails or gives what the intact file gives) and when the
   process writing it vanished at any moment ("crash": until everything is written reads of the new record fail, those of earlier records do not).
   An item is [t |-> its type, v |-> its value, l |-> the record of file g a link refers to, c |-> is it compressed]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* f is in a directory, g in a directory below, h in one further down; records have links to those further down only
Files == {"f", "g", "h"}
Depth(x) == CASE x = "f" -> 1 [] x = "g" -> 2 [] x = "h" -> 3
Init0(c) == [w |-> <<>>, f |-> [x \in Files |-> <<>>]]
Link(i) == i.t = "L"
Above(w, x) == \A k \in DOMAIN w : Link(w[k]) => Depth(w[k].l[1]) > Depth(x)
HasLink(w) == \E k \in DOMAIN w : Link(w[k])
None == <<"none">>
\* a value, or None
RECURSIVE Item(_, _, _, _, _, _)
\* record r of file x.  A link spelt relative to a directory (l[3] = the file there) works only in a record in that directory
Item(s, x, r, k, t, how) ==
  IF k \notin DOMAIN r THEN None
  ELSE IF Link(r[k]) THEN (LET l == r[k].l IN IF how \in {"stream", "mem"} \/ l[2] > Len(s.f[l[1]]) \/ l[3] \notin {"abs", x} THEN None ELSE Item(s, l[1], s.f[l[1]][l[2]], r[k].v, t, how))
  ELSE IF r[k].t = t THEN <<"ok", r[k].v>> ELSE None
RECURSIVE Kind(_, _, _, _)
Kind(s, x, r, k) ==
  IF k \notin DOMAIN r THEN None
  ELSE IF Link(r[k]) THEN (LET l == r[k].l IN IF l[2] > Len(s.f[l[1]]) \/ l[3] \notin {"abs", x} THEN None ELSE Kind(s, l[1], s.f[l[1]][l[2]], r[k].v))
  ELSE <<"ok", CASE r[k].t \in {"i", "l", "u", "f", "d"} -> "scalar" [] r[k].t = "s" -> "string" [] OTHER -> "array">>
Orders(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
R(s, r) == {[s |-> s, r |-> r]}
Ok(s, v) == R(s, <<"ok", v>>)
Exc(s) == R(s, <<"exc">>)
I(t, v, l, c) == [t |-> t, v |-> v, l |-> l, c |-> c]
B(b) == IF b THEN 1 ELSE 0
Steps(s, e) ==
  CASE e.op = "new" -> Ok([s EXCEPT !.w = <<>>], 0)
    \* set(key, type, value, compression, form)
    [] e.op = "set" -> Ok([s EXCEPT !.w = (e.a[1] :> I(e.a[2], e.a[3], <<>>, B(e.a[4] # "none"))) @@ s.w], 0)
    \* link(key, file, record, key there, spelt: "abs" or relative to that file)
    [] e.op = "link" -> IF e.a[3] \notin 1..Len(s.f[e.a[2]]) \/ (e.a[5] # "abs" /\ Depth(e.a[5]) >= Depth(e.a[2])) THEN {}
                        ELSE Ok([s EXCEPT !.w = (e.a[1] :> I("L", e.a[4], <<e.a[2], e.a[3], e.a[5]>>, 0)) @@ s.w], 0)
    \* write(file, mode, through): those ending in 2 write it twice, one after the other
    [] e.op = "write" -> IF ~Above(s.w, e.a[1]) \/ (e.a[1] # "f" /\ e.a[2] # "a") THEN {}
                         ELSE LET n == IF e.a[3] \in {"stream2", "handle2", "mem2"} THEN <<s.w, s.w>> ELSE <<s.w>> IN
                              Ok([s EXCEPT !.f = [@ EXCEPT ![e.a[1]] = IF e.a[2] = "a" THEN @ \o n ELSE n]], 0)
    \* the size it is estimated to take: exactly, unless something is compressed
    [] e.op = "size" -> IF \E k \in DOMAIN s.w : s.w[k].c = 1 THEN Ok(s, <<0, 1>>) \cup Ok(s, <<1, 1>>) ELSE Ok(s, <<1, 1>>)
    \* read(file, record, through, <<key, type>>, ...): one reader for all of them
    [] e.op = "read" -> IF e.a[2] \notin 1..Len(s.f[e.a[1]]) THEN {}
                        ELSE LET r == s.f[e.a[1]][e.a[2]]
                                 n == (Len(e.a) - 3) \div 2
                                 g(i) == Item(s, e.a[1], r, e.a[2 + 2 * i], e.a[3 + 2 * i], e.a[3])
                             IN IF \E i \in 1..n : g(i) = None THEN Exc(s) ELSE Ok(s, [i \in 1..n |-> g(i)[2]])
    \* the kind of the item, links followed
    [] e.op = "meta" -> IF e.a[2] \notin 1..Len(s.f[e.a[1]]) THEN {} ELSE LET k == Kind(s, e.a[1], s.f[e.a[1]][e.a[2]], e.a[3]) IN IF k = None THEN Exc(s) ELSE Ok(s, k[2])
    [] e.op = "keys" -> IF e.a[2] \notin 1..Len(s.f[e.a[1]]) THEN {} ELSE UNION {Ok(s, o) : o \in Orders(DOMAIN s.f[e.a[1]][e.a[2]])}
    \* bytes taken by an array of doubles with this shape
    [] e.op = "bytes" -> Ok(s, CASE e.a[1] = "3000000000" -> "24000000000" [] e.a[1] = "65536x65536" -> "34359738368" [] e.a[1] = "2x3" -> "48")
    [] e.op \in {"flips", "cuts", "crash"} -> Ok(s, 0)
    [] OTHER -> {}
Inv(s) == \A x \in Files : \A i \in 1..Len(s.f[x]) : Above(s.f[x][i], x)
O(o, a) == [op |-> o, a |-> a]
Vals == {<<"i", "7">>, <<"s", "61">>, <<"ad", "3.1">>, <<"ad", "5.2">>}
Ops(c, s) == {O("bytes", <<x>>) : x \in {"2x3", "65536x65536", "3000000000"}} \cup {O("new", <<>>), O("size", <<>>)}
             \cup {O("set", <<k, v[1], v[2], z, 0>>) : k \in c.ks, v \in Vals, z \in {"none"}} \cup {O("set", <<"a", "ad", "9.3", "lz4", 1>>)}
             \cup {O("link", <<k, x, 1, "a", y>>) : k \in c.ks, y \in {"abs", "f"}, x \in {x \in {"g", "h"} : s.f[x] # <<>>}}
             \cup {O("write", <<x, m, "path">>) : x \in {"f", "g"}, m \in {"w", "a"}} \cup {O("write", <<"f", "a", "stream2">>), O("write", <<"f", "w", "handle2">>)}
             \cup UNION {{O("read", <<x, r, h, k, t>>) : k \in c.ks, t \in {"i", "s", "ad"}, h \in {"path", "stream"}}
                         \cup {O("read", <<x, r, "path", "a", "i", "b", "ad", "a", "i">>), O("keys", <<x, r>>)} \cup {O("meta", <<x, r, k>>) : k \in c.ks} : <<x, r>> \in {<<x, r>> \in {"f", "g"} \X {1, 2} : r <= Len(s.f[x])}}
Bound(c, s) == Len(s.f["f"]) <= c.n /\ Len(s.f["g"]) <= 1 /\ Len(s.f["h"]) <= 1
====
