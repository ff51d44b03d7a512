---- MODULE PathLex ----
(* Path names as strings (sequences of one-character strings), and the places they stand for.  A place is [abs, up, ns]: from the root or from
   the current directory, `up` levels up (never above the root) and then down through the names ns.  Names are taken literally: symbolic links
   are not looked at. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Split(_), Walk(_, _), JoinN(_)
\* tokens between '/'; <<>> for two in a row, and at the ends
Split(p) == IF \A i \in 1..Len(p) : p[i] # "/" THEN <<p>>
            ELSE LET i == CHOOSE j \in 1..Len(p) : p[j] = "/" /\ \A k \in 1..(j - 1) : p[k] # "/" IN <<SubSeq(p, 1, i - 1)>> \o Split(SubSeq(p, i + 1, Len(p)))
Dot == <<".">>
DD == <<".", ".">>
Real(t) == t # <<>> /\ t # Dot
Step(l, t) == IF ~Real(t) THEN l
              ELSE IF t # DD THEN [l EXCEPT !.ns = Append(@, t)]
              ELSE IF l.ns # <<>> THEN [l EXCEPT !.ns = SubSeq(@, 1, Len(@) - 1)]
              ELSE IF l.abs THEN l ELSE [l EXCEPT !.up = @ + 1]
Walk(l, ts) == IF ts = <<>> THEN l ELSE Walk(Step(l, Head(ts)), Tail(ts))
Here == [abs |-> FALSE, up |-> 0, ns |-> <<>>]
Root == [abs |-> TRUE, up |-> 0, ns |-> <<>>]
IsAbs(p) == p # <<>> /\ p[1] = "/"
Place(p) == Walk(IF IsAbs(p) THEN Root ELSE Here, Split(p))
\* the place that the relative place r stands for, seen from l
At(l, r) == Walk(l, [i \in 1..r.up |-> DD] \o r.ns)
JoinN(ns) == IF ns = <<>> THEN <<>> ELSE IF Len(ns) = 1 THEN ns[1] ELSE ns[1] \o <<"/">> \o JoinN(Tail(ns))
Trail(p) == p # <<>> /\ p[Len(p)] = "/"
\* the shortest spelling of the place of p, but: a '.' in front stays when a name follows it or nothing does, nothing at all is left of a path that
\* comes back to where it started, and a '/' at the end stays
LeadDot(p) == LET ts == SelectSeq(Split(p), LAMBDA t : t # <<>>) IN ~IsAbs(p) /\ ts # <<>> /\ ts[1] = Dot
                 /\ \A k \in 2..Len(ts) : LET l == Walk(Here, SubSeq(ts, 1, k)) IN l.up = 0
Tidy(p) == IF p = <<>> THEN <<>> ELSE
           LET l == Place(p)  ts == [i \in 1..l.up |-> DD] \o l.ns
               b == IF l.abs THEN <<"/">> \o JoinN(ts) ELSE IF LeadDot(p) THEN JoinN(<<Dot>> \o ts) ELSE JoinN(ts)
           IN IF ~Trail(p) \/ Trail(b) THEN b ELSE IF b = <<>> THEN <<".", "/">> ELSE b \o <<"/">>
LastSlash(p) == IF \E i \in 1..Len(p) : p[i] = "/" THEN CHOOSE i \in 1..Len(p) : p[i] = "/" /\ \A k \in (i + 1)..Len(p) : p[k] # "/" ELSE 0
DirName(p) == LET n == LastSlash(p) IN IF n = 0 THEN Dot ELSE IF n = 1 THEN <<"/">> ELSE Tidy(SubSeq(p, 1, n - 1))
FirstDot(b) == IF \E i \in 1..Len(b) : b[i] = "." THEN CHOOSE i \in 1..Len(b) : b[i] = "." /\ \A k \in 1..(i - 1) : b[k] # "." ELSE 0
LastDot(b) == IF \E i \in 1..Len(b) : b[i] = "." THEN CHOOSE i \in 1..Len(b) : b[i] = "." /\ \A k \in (i + 1)..Len(b) : b[k] # "." ELSE 0
Base(p) == SubSeq(p, LastSlash(p) + 1, Len(p))
BaseName(p, ext) == LET b == Base(p) IN IF ext \/ FirstDot(b) = 0 THEN b ELSE SubSeq(b, 1, FirstDot(b) - 1)
Ext(p) == LET b == Base(p) IN IF LastDot(b) = 0 THEN <<>> ELSE SubSeq(b, LastDot(b), Len(b))
\* q / x : the place of x seen from q; spelled as it is or tidied
Join(q, x) == IF q = <<>> THEN x ELSE q \o <<"/">> \o x
\* from the place of q to that of p, both from the root
Common(a, b) == CHOOSE n \in 0..Len(a) : /\ n <= Len(b) /\ SubSeq(a, 1, n) = SubSeq(b, 1, n)
                                         /\ (n < Len(a) /\ n < Len(b) => a[n + 1] # b[n + 1])
RelPath(p, q) == LET a == Place(p).ns  b == Place(q).ns  n == Common(a, b)
                     r == [i \in 1..(Len(b) - n) |-> DD] \o SubSeq(a, n + 1, Len(a))
                 IN IF r = <<>> THEN Dot ELSE JoinN(r)
====
