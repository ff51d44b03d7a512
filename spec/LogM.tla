---- MODULE LogM ----
(* eckit::Channel and the targets of logs: what each receiver has been given.
   A text is a sequence of runs <<character, how many>>, adjacent ones different; 10 is the end of a line.
   A target is <<>>, or <<"st", i>> a stream or file (receiver i is given the text), <<"cb", i>> a callback (receiver i is given the lines, once complete),
   <<"kept", k>> (one of the two that channels may share: 1 a callback, 2 a prefixed stream), <<"tee", left, right>>, <<"wrap", prefix, target, at the start of a line, is an indentation>>.
   What is written to a channel reaches its targets at the latest when the channel is flushed or its targets change.
   chan, pend: target and unflushed text of each channel; out, part: text and unfinished line of each receiver. *)
EXTENDS Integers, Sequences, FiniteSets
Text(q) == q
Cat(t, u) == IF t = <<>> THEN u ELSE IF u = <<>> THEN t
             ELSE LET n == Len(t) IN IF t[n][1] = u[1][1] THEN SubSeq(t, 1, n - 1) \o <<<<u[1][1], t[n][2] + u[1][2]>>>> \o Tail(u) ELSE t \o u
Init0(c) == [chan |-> <<<<>>, <<>>>>, pend |-> <<<<>>, <<>>>>, out |-> [i \in 1..c.leaves |-> <<>>], part |-> [i \in 1..c.leaves |-> <<>>], used |-> 2, kst |-> TRUE]
RECURSIVE Wrap(_, _, _, _)
\* a line that is not empty gets the prefix
Wrap(start, prefix, t, acc) ==
  IF t = <<>> THEN [start |-> start, text |-> acc]
  ELSE IF t[1][1] = 10 THEN Wrap(TRUE, prefix, Tail(t), Cat(acc, <<t[1]>>))
  ELSE Wrap(FALSE, prefix, Tail(t), Cat(IF start THEN Cat(acc, prefix) ELSE acc, <<t[1]>>))
\* length of t up to the last end of line
Last(t) == IF \E i \in 1..Len(t) : t[i][1] = 10 THEN CHOOSE i \in 1..Len(t) : t[i][1] = 10 /\ \A j \in i + 1..Len(t) : t[j][1] # 10 ELSE 0
KeptPrefix == <<<<80, 1>>, <<32, 1>>>>
RECURSIVE W(_, _, _)
\* t written to target g: [s |-> , g |-> ]
W(s, g, t) ==
  IF g = <<>> \/ t = <<>> THEN [s |-> s, g |-> g]
  ELSE CASE g[1] = "st" -> [s |-> [s EXCEPT !.out[g[2]] = Cat(@, t)], g |-> g]
         [] g[1] = "cb" -> LET all == Cat(s.part[g[2]], t) n == Last(all) IN
              [s |-> [s EXCEPT !.out[g[2]] = Cat(@, SubSeq(all, 1, n)), !.part[g[2]] = SubSeq(all, n + 1, Len(all))], g |-> g]
         [] g[1] = "kept" -> IF g[2] = 1 THEN [s |-> W(s, <<"cb", 1>>, t).s, g |-> g]
              ELSE LET w == Wrap(s.kst, KeptPrefix, t, <<>>) IN [s |-> W([s EXCEPT !.kst = w.start], <<"st", 2>>, w.text).s, g |-> g]
         [] g[1] = "tee" -> LET l == W(s, g[2], t) r == W(l.s, g[3], t) IN [s |-> r.s, g |-> <<"tee", l.g, r.g>>]
         [] g[1] = "wrap" -> LET w == Wrap(g[4], g[2], t, <<>>) x == W(s, g[3], w.text) IN [s |-> x.s, g |-> <<"wrap", g[2], x.g, w.start, g[5]>>]
Sync(s, c) == LET x == W(s, s.chan[c], s.pend[c]) IN [x.s EXCEPT !.chan[c] = x.g, !.pend[c] = <<>>]
\* a new target
New(k, i) == IF k = "kept" THEN <<"kept", i>> ELSE IF k = "cb" THEN <<"cb", i>> ELSE <<"st", i>>
Use(s, k) == IF k = "kept" THEN s ELSE [s EXCEPT !.used = @ + 1]
Set(s, c, g) == [s EXCEPT !.chan[c] = g]
Indent(n) == <<<<32, n + 4>>>>
Prefix(n) == <<<<80 + n, 1>>, <<32, 1>>>>
Ok(s) == {[s |-> s, r |-> <<"ok">>]}
\* the text of a write is <<code, count>> runs flattened
Steps(s, e) ==
  LET a == e.a c == a[1] f == Sync(s, c) IN
  CASE e.op = "write" -> Ok([s EXCEPT !.pend[c] = Cat(@, a[2])])
    [] e.op = "flush" -> Ok(f)
    [] e.op = "set" -> Ok(Set(Use(f, a[2]), c, New(a[2], a[3])))
    [] e.op = "add" -> Ok(Set(Use(f, a[2]), c, <<"tee", f.chan[c], New(a[2], a[3])>>))
    [] e.op = "setprefix" -> Ok(Set(Use(f, a[2]), c, <<"wrap", Prefix(a[4]), New(a[2], a[3]), TRUE, FALSE>>))
    [] e.op = "addprefix" -> Ok(Set(Use(f, a[2]), c, <<"tee", f.chan[c], <<"wrap", Prefix(a[4]), New(a[2], a[3]), TRUE, FALSE>>>>))
    [] e.op = "indent" -> Ok(IF s.chan[c] = <<>> THEN s ELSE Set(f, c, <<"wrap", Indent(a[2]), f.chan[c], TRUE, TRUE>>))
    [] e.op = "unindent" -> IF s.chan[c] = <<>> THEN Ok(s) ELSE IF f.chan[c][1] = "wrap" /\ f.chan[c][5] THEN Ok(Set(f, c, f.chan[c][3])) ELSE {[s |-> s, r |-> <<"exc">>]}
    [] e.op \in {"reset", "destroy"} -> Ok(Set(f, c, <<>>))
    [] e.op = "active" -> {[s |-> s, r |-> <<"ok", IF s.chan[c] = <<>> THEN 0 ELSE 1>>]}
    \* of receivers, when nothing is unflushed
    [] e.op = "get" -> {[s |-> s, r |-> <<"ok", s.out[c]>>]}
\* each unfinished line is of a callback, and no more than a line
Inv(s) == \A i \in 1..Len(s.part) : Last(s.part[i]) = 0
O(p, a) == [op |-> p, a |-> a]
Texts == {<<<<97, 1>>>>, <<<<10, 1>>, <<98, 1>>>>, <<<<98, 1>>, <<10, 1>>>>}
RECURSIVE Size(_)
Size(t) == IF t = <<>> THEN 0 ELSE t[1][2] + Size(Tail(t))
RECURSIVE Depth(_)
Depth(g) == IF g = <<>> THEN 0 ELSE IF g[1] = "tee" THEN LET l == Depth(g[2]) r == Depth(g[3]) IN 1 + (IF l > r THEN l ELSE r) ELSE IF g[1] = "wrap" THEN 1 + Depth(g[3]) ELSE 1
RECURSIVE Has(_, _)
Has(g, k) == g # <<>> /\ (g = <<"kept", k>> \/ (g[1] = "tee" /\ (Has(g[2], k) \/ Has(g[3], k))) \/ (g[1] = "wrap" /\ Has(g[3], k)))
Ops(c, s) ==
  LET ch == 1..c.ch n == s.used + 1
      kinds(x) == {<<k, n>> : k \in IF n <= c.leaves THEN c.kinds \ {"kept"} ELSE {}} \cup {<<"kept", k>> : k \in {k \in {1, 2} : "kept" \in c.kinds /\ ~Has(s.chan[x], k)}}
      quiet == s.pend[1] = <<>> /\ s.pend[2] = <<>>
  IN {O("write", <<x, t>>) : x \in {x \in ch : s.pend[x] = <<>>}, t \in Texts} \cup {O(p, <<x>>) : p \in {"flush", "unindent", "reset", "active", "destroy"}, x \in ch}
     \cup {O("indent", <<x, 0>>) : x \in ch}
     \cup UNION {{O(p, <<x, k[1], k[2]>>) : p \in {"set", "add"}, k \in kinds(x)} \cup {O("setprefix", <<x, k[1], k[2], x>>) : k \in kinds(x)} : x \in ch}
     \cup (IF quiet THEN {O("get", <<i>>) : i \in 1..s.used} ELSE {})
Bound(c, s) == (\A i \in 1..c.leaves : Size(s.out[i]) + Size(s.part[i]) <= c.size + (IF s.part[i] = <<>> THEN 0 ELSE 1)) /\ \A x \in 1..2 : Depth(s.chan[x]) <= c.depth /\ Size(s.pend[x]) <= 2
====
