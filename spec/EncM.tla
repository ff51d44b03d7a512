---- MODULE EncM ----
(* Encodings: what is encoded is decoded to what it was; the texts, bytes and bits in between are those of the definitions.
   Bits and bytes are sequences; longer bytes are runs <<byte, how many>>.  Stateless. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Init0(c) == [x |-> 0]
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
RECURSIVE Num(_, _)
Num(b, acc) == IF b = <<>> THEN acc ELSE Num(Tail(b), 2 * acc + b[1])
Bits8(x) == [i \in 1..8 |-> (x \div Pow2[9 - i]) % 2]
Zeros(n) == [i \in 1..n |-> 0]
\* groups of n bits, zeros after the last
Groups(b, n) == [i \in 1..((Len(b) + n - 1) \div n) |-> [j \in 1..n |-> IF (i - 1) * n + j <= Len(b) THEN b[(i - 1) * n + j] ELSE 0]]
Nums(b, n) == LET g == Groups(b, n) IN [i \in 1..Len(g) |-> Num(g[i], 0)]
AllBits(bytes) == [i \in 1..8 * Len(bytes) |-> (bytes[((i - 1) \div 8) + 1] \div Pow2[8 - ((i - 1) % 8)]) % 2]
RECURSIVE Reads(_, _, _, _, _)
\* reads of n bits each from b[pos..]; <<2>> end marker, <<3>> refused
Reads(b, pos, ns, padded, marker) ==
  IF ns = <<>> THEN <<>>
  ELSE LET n == ns[1] rem == Len(b) - pos IN
       IF n <= rem THEN <<SubSeq(b, pos + 1, pos + n)>> \o Reads(b, pos + n, Tail(ns), padded, marker)
       ELSE IF rem > 0 /\ padded = 1 THEN <<SubSeq(b, pos + 1, Len(b)) \o Zeros(n - rem)>> \o Reads(b, Len(b), Tail(ns), 0, marker)
       ELSE <<IF marker = 1 THEN <<2>> ELSE <<3>>>> \o Reads(b, Len(b), Tail(ns), padded, marker)
Written(a) == Nums(FlattenSeq(a[1]), 8)
\* characters: A-Z a-z 0-9 + / or - _
Code(x, url) == IF x < 26 THEN 65 + x ELSE IF x < 52 THEN 71 + x ELSE IF x < 62 THEN x - 4 ELSE IF x = 62 THEN (IF url = 1 THEN 45 ELSE 43) ELSE (IF url = 1 THEN 95 ELSE 47)
Base64(bytes, url) == LET n == Nums(AllBits(bytes), 6) IN [i \in 1..Len(n) |-> Code(n[i], url)] \o (CASE Len(bytes) % 3 = 0 -> <<>> [] Len(bytes) % 3 = 1 -> <<61, 61>> [] OTHER -> <<61>>)
RECURSIVE Times(_, _)
Times(q, n) == IF n = 0 THEN <<>> ELSE q \o Times(q, n - 1)
RECURSIVE Dec(_)
\* -n x: n times x; -n -m and m codes: n times what they stand for
Dec(q) == IF q = <<>> THEN <<>>
          ELSE IF q[1] >= 0 THEN <<q[1]>> \o Dec(Tail(q))
          ELSE IF q[2] >= 0 THEN Times(<<q[2]>>, -q[1]) \o Dec(SubSeq(q, 3, Len(q)))
          ELSE Times(Dec(SubSeq(q, 3, 2 - q[2])), -q[1]) \o Dec(SubSeq(q, 3 - q[2], Len(q)))
Ascending(q) == \A i \in 1..Len(q) - 1 : q[i] <= q[i + 1]
RECURSIVE Prod(_)
Prod(d) == IF d = <<>> THEN 1 ELSE d[1] * Prod(Tail(d))
\* the last coordinate changes fastest
Coord(d, i) == [k \in 1..Len(d) |-> (i \div Prod(SubSeq(d, k + 1, Len(d)))) % d[k]]
RECURSIVE Index(_, _)
Index(d, x) == IF d = <<>> THEN 0 ELSE x[1] * Prod(Tail(d)) + Index(Tail(d), Tail(x))
Wider(d, w) == [d EXCEPT ![w[1]] = @ + w[3]]
Remap(d, w) == [i \in 1..Prod(d) |-> Index(Wider(d, w), [Coord(d, i - 1) EXCEPT ![w[1]] = IF @ >= w[2] THEN @ + w[3] ELSE @])]
Steps(s, e) ==
  LET a == e.a IN
  CASE e.op = "bits" -> {[s |-> s, r |-> <<"ok", Written(a), Len(FlattenSeq(a[1])), Reads(AllBits(Written(a)), 0, a[2], a[3], a[4])>>]}
    [] e.op = "base64" -> {[s |-> s, r |-> <<"ok", Base64(a[1], a[2]), a[1]>>]}
    \* however many steps are allowed, and whenever the time allowed ends
    [] e.op = "rle" -> {[s |-> s, r |-> <<"ok", a[1]>>]}
    [] e.op = "unrle" -> {[s |-> s, r |-> <<"ok", Dec(a[1])>>]}
    [] e.op = "diff" -> {[s |-> s, r |-> IF Ascending(a[1]) THEN <<"ok", [i \in 1..Len(a[1]) |-> IF i = 1 THEN a[1][1] ELSE a[1][i] - a[1][i - 1]], a[1]>> ELSE <<"no">>]}
    [] e.op \in {"stream", "streamdiff"} -> {[s |-> s, r |-> <<"ok", a[1], a[1]>>]}
    [] e.op = "compress" -> {[s |-> s, r |-> <<"ok", a[2]>>]}
    [] e.op = "cube" -> LET d == a[1] n == Prod(d) m == Remap(d, a[2]) m2 == Remap(Wider(d, a[2]), a[3]) IN
         {[s |-> s, r |-> <<"ok", n, [i \in 1..n |-> Coord(d, i - 1)], m, Prod(Wider(d, a[2])), [i \in 1..n |-> m2[m[i] + 1]]>>]}
Inv(s) == TRUE
O(p, a) == [op |-> p, a |-> a]
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Ops(c, s) ==
  CASE c.k = "rle" -> {O("rle", <<q, m, t, d>>) : q \in Seqs(c.v, c.n), m \in {1, 100}, t \in {-1} , d \in {0}} \cup {O("rle", <<q, 100, t, d>>) : q \in Seqs(c.v, c.n), t \in c.t, d \in {1, 100}}
                      \cup {O(p, <<q, 100>>) : p \in {"stream", "streamdiff"}, q \in Seqs(c.v, 4)} \cup {O("diff", <<q>>) : q \in Seqs(c.v, 4)}
    [] c.k = "b64" -> {O("base64", <<q, u>>) : q \in Seqs(c.v, c.n), u \in {0, 1}}
    [] c.k = "bits" -> {O("bits", <<<<Zeros(x), [i \in 1..y |-> 1], Zeros(z)>>, <<u, v, v>>, p, m>>) : x, y, z \in c.v, u, v \in c.v, p, m \in {0, 1}}
    [] OTHER -> {}
Bound(c, s) == TRUE
====
