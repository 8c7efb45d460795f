---------------------------- MODULE DatasetTrace ----------------------------
(* Recorded generations, readings and summaries of datasets. st.stored: the  *)
(* files each data folder holds, with their content.                         *)
EXTENDS DatasetCore, TLC, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
Distinct(r) == \A i, j \in DOMAIN r : i # j => r[i] # r[j]
\* sizes of n transactions over N items, tot in all, asked for with density dp/dq: sizes cannot exceed the alphabet; six standard
\* deviations of the mean are allowed; sizes brought back under the alphabet size may shift it by three of one row
Fits(dp, dq) == 2 * dp <= dq
DensityOk(tot, n, N, dp, dq) ==
  LET num == n * N * dp
      dev == (Abs(tot * dq - num) - (n * dq) \div 2) \div dq     \* beyond the half item lost to rounding
  IN n = 0 \/ dev <= 0 \/ dev * dev <= 18 * (num \div dq + 1)
     \/ (~Fits(dp, dq) /\ (dev \div n) * (dev \div n) <= 5 * ((N * dp) \div dq + 1))
\* generated transactions: density dp/dq, items lo .. lo + N - 1
GenClauses(e) ==
  IF e.exc # "" THEN [ NoError |-> FALSE ]
  ELSE [ RowCount |-> Len(e.rows) = e.n,
         Alphabet |-> \A i \in DOMAIN e.rows : \A j \in DOMAIN e.rows[i] : e.rows[i][j] \in e.lo .. (e.lo + e.N - 1),
         NoRepeat |-> \A i \in DOMAIN e.rows : Distinct(e.rows[i]),
         SizeRange |-> \A i \in DOMAIN e.rows : Len(e.rows[i]) <= e.N /\ (Fits(e.dp, e.dq) => Len(e.rows[i]) * e.dq <= 2 * e.dp * e.N + e.dq),
         Density |-> DensityOk(SizeSum(e.rows), e.n, e.N, e.dp, e.dq),
         SameSeed |-> e.again = e.rows, OtherSeeds |-> e.varied, Index |-> e.index = [i \in 1 .. e.n |-> i - 1] ]
RECURSIVE SizeOver(_, _)
SizeOver(rows, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN Len(rows[i]) + SizeOver(rows, S \ {i})
ClassClauses(e) ==
  IF e.exc # "" THEN [ NoError |-> FALSE ]
  ELSE LET k == Len(e.w)
           cnt == [i \in 1 .. k |-> Cardinality({j \in DOMAIN e.y : e.y[j] = i - 1})]
           mine(i) == {j \in DOMAIN e.y : e.y[j] = i - 1}
           lo(i) == (i - 1) * e.pad
       IN [ SampleCount |-> Len(e.rows) = e.n /\ Len(e.y) = e.n,
            Labels |-> \A j \in DOMAIN e.y : e.y[j] \in 0 .. (k - 1),
            Shares |-> FairShare(cnt, e.w, SumSeq(e.w), e.n),
            ClassAlphabet |-> \A i \in 1 .. k : \A j \in mine(i) : \A x \in DOMAIN e.rows[j] : e.rows[j][x] \in lo(i) .. (lo(i) + e.N - 1),
            ClassDensity |-> \A i \in 1 .. k : DensityOk(SizeOver(e.rows, mine(i)), cnt[i], e.N, e.dens[i], 10),
            NoRepeat |-> \A j \in DOMAIN e.rows : Distinct(e.rows[j]),
            Aligned |-> e.aligned,
            Ordered |-> ~e.shuffle => \A j \in 1 .. (Len(e.y) - 1) : e.y[j] <= e.y[j + 1],
            SameSeed |-> e.again = e.rows /\ e.yagain = e.y,
            Shuffled |-> e.shuffled ]
BadClauses(e) == [ Refused |-> e.exc = e.want ]
\* a file of transactions, as characters
ReadClauses(e) ==
  IF e.exc # "" THEN [ NoError |-> FALSE ]
  ELSE [ Rows |-> e.rows = RowsOf(e.text, "\n", e.sep, {" ", "\t"}), Types |-> e.types, Named |-> e.name = e.wantname, Index |-> e.index = [i \in 1 .. Len(e.rows) |-> i - 1] ]
\* a log: the pairs written and the pairs read
LogClauses(e) ==
  IF e.exc # "" THEN [ NoError |-> FALSE ]
  ELSE [ Pairs |-> e.got = e.wrote, Kind |-> e.isdate = e.wantdate, StringEvents |-> e.strings, IndexName |-> e.iname = "timestamp" ]
DescribeClauses(e) ==
  LET m == Cardinality(ItemsOf(e.rows)) s == SizeSum(e.rows) k == Len(e.rows)
  IN [ NoError |-> e.exc = "", Items |-> e.n_items = m, Transactions |-> e.n_transactions = k,
       Average |-> e.avg = s, DensityOf |-> e.dens = s ]        \* average times transactions; density times both
EventsOf(e) == {e.log[i][2] : i \in DOMAIN e.log}
Span(e, v) == LET T == {e.log[i][1] : i \in {j \in DOMAIN e.log : e.log[j][2] = v}}
              IN (CHOOSE x \in T : \A y \in T : x >= y) - (CHOOSE x \in T : \A y \in T : x <= y)
RECURSIVE SpanSum(_, _)
SpanSum(e, S) == IF S = {} THEN 0 ELSE LET v == CHOOSE x \in S : TRUE IN Span(e, v) + SpanSum(e, S \ {v})
DescribeLogClauses(e) ==
  [ NoError |-> e.exc = "", Events |-> e.n_events = Cardinality(EventsOf(e)), Points |-> e.points = Len(e.log),
    Delta |-> e.delta = SpanSum(e, EventsOf(e)) ]
\* fetching a named dataset: downloaded when the folder does not hold it, then read from there
Held(h, f) == \E i \in DOMAIN st.stored : st.stored[i].home = h /\ st.stored[i].file = f
Content(h, f) == LET i == CHOOSE x \in DOMAIN st.stored : st.stored[x].home = h /\ st.stored[x].file = f IN st.stored[i].rows
FetchClauses(e) ==
  LET rows == IF Held(e.home, e.file) THEN Content(e.home, e.file) ELSE e.remote
      \* the label is one of the items of a row; the label 2 of the first kind counts as 0
      at(r) == IF e.label = "first" THEN 1 ELSE Len(r)
      lab(r) == IF e.label = "first" /\ r[1] = 2 THEN 0 ELSE r[at(r)]
      cutr(r) == IF e.label = "first" THEN Tail(r) ELSE SubSeq(r, 1, Len(r) - 1)
  IN IF e.fails /\ ~Held(e.home, e.file)         \* the download fails: so does the call, and the folder holds nothing
     THEN [ FailureTold |-> e.exc # "", DownloadOnce |-> e.downloads = 1, NotStored |-> e.file \notin {e.listing[i] : i \in DOMAIN e.listing} ]
     ELSE IF e.exc # "" THEN [ NoError |-> FALSE ]
     ELSE [ DownloadOnce |-> e.downloads = (IF Held(e.home, e.file) THEN 0 ELSE 1),
            FetchedRows |-> e.rows = (IF e.label = "" THEN rows ELSE [i \in DOMAIN rows |-> cutr(rows[i])]),
            FetchedLabels |-> e.label # "" => e.y = [i \in DOMAIN rows |-> lab(rows[i])],
            Stored |-> e.file \in {e.listing[i] : i \in DOMAIN e.listing} ]
HomeClauses(e) == [ NoError |-> e.exc = "", Path |-> e.path = e.want, Exists |-> e.exists ]
Clauses(e) ==
  CASE e.ev = "Gen" -> GenClauses(e)
    [] e.ev = "Class" -> ClassClauses(e)
    [] e.ev = "Bad" -> BadClauses(e)
    [] e.ev = "Read" -> ReadClauses(e)
    [] e.ev = "Log" -> LogClauses(e)
    [] e.ev = "Describe" -> DescribeClauses(e)
    [] e.ev = "DescribeLog" -> DescribeLogClauses(e)
    [] e.ev = "Fetch" -> FetchClauses(e)
    [] e.ev = "Home" -> HomeClauses(e)
    [] OTHER -> [Unexpected |-> FALSE]
Failing(e) == LET cl == Clauses(e) IN {n \in DOMAIN cl : ~cl[n]}
After(e) == IF e.ev = "Fetch" /\ e.exc = "" /\ ~Held(e.home, e.file)
            THEN [stored |-> Append(st.stored, [home |-> e.home, file |-> e.file, rows |-> e.remote])] ELSE st
Events == Cases[c].events
Report(f) == \A n \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o n)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = [stored |-> <<>>]
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ st' = After(Events[l]) /\ l' = l + 1 /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
