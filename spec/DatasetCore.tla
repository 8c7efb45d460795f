---------------------------- MODULE DatasetCore ----------------------------
(* Files of transactions as sequences of symbols; apportionment; counts.     *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
\* maximal runs of a sequence between separators
RECURSIVE Split(_, _)
Split(s, sep) ==
  LET cut == {i \in DOMAIN s : s[i] = sep}
  IN IF cut = {} THEN <<s>>
     ELSE LET i == CHOOSE x \in cut : \A y \in cut : x <= y
          IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), sep)
RECURSIVE StripRight(_, _)
StripRight(s, blanks) == IF s # <<>> /\ s[Len(s)] \in blanks THEN StripRight(SubSeq(s, 1, Len(s) - 1), blanks) ELSE s
\* the lines of a file: what ends with a line break, and what is left after the last one
LinesOf(f, nl) == LET p == Split(f, nl) IN IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
RowsOf(f, nl, sep, blanks) == LET L == LinesOf(f, nl) IN [i \in DOMAIN L |-> Split(StripRight(L[i], blanks), sep)]
\* files in scope: no empty line, no empty item
WellFormed(f, nl, sep, blanks) ==
  \A i \in DOMAIN RowsOf(f, nl, sep, blanks) : \A j \in DOMAIN RowsOf(f, nl, sep, blanks)[i] : RowsOf(f, nl, sep, blanks)[i][j] # <<>>
\* sharing n samples among classes in proportion p[i]/q: bounds are the nearest integers to the cumulated shares
RECURSIVE Cum(_, _)
Cum(p, k) == IF k = 0 THEN 0 ELSE p[k] + Cum(p, k - 1)
FairShare(cnt, p, q, n) == Len(cnt) = Len(p) /\ SumSeq(cnt) = n /\ \A i \in DOMAIN cnt : cnt[i] >= 0 /\ Abs(cnt[i] * q - p[i] * n) <= q
ItemsOf(rows) == UNION {{rows[i][j] : j \in DOMAIN rows[i]} : i \in DOMAIN rows}
SizeSum(rows) == SumSeq([i \in DOMAIN rows |-> Len(rows[i])])
=============================================================================
