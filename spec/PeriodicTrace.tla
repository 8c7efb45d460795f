--------------------------- MODULE PeriodicTrace ---------------------------
(* Histories of a periodic miner: fit, reconstruct, residuals, table,        *)
(* export/import, costs.  Times are in the log's own unit.                   *)
EXTENDS PatternCore, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
Pairs(o) == [i \in DOMAIN o |-> [t |-> o[i][1], ev |-> o[i][2]]]
SetP(o) == {<<o[i][1], o[i][2]>> : i \in DOMAIN o}
Rng(s) == {s[i] : i \in DOMAIN s}
With0(E) == <<0>> \o E
Ids(e) == IF e.ids = <<-1>> THEN DOMAIN st.occ ELSE {i + 1 : i \in Rng(e.ids)}
IdSeq(e) == IF e.ids = <<-1>> THEN [i \in DOMAIN st.occ |-> i] ELSE [k \in DOMAIN e.ids |-> e.ids[k] + 1]
CovBy(ids) == UNION {SetP(st.occ[i]) : i \in ids}
TimeSorted(o) == \A i \in 1 .. Len(o) - 1 : o[i][1] <= o[i + 1][1]
EvSorted(o) == \A i \in 1 .. Len(o) - 1 : o[i][2] <= o[i + 1][2]
SortedAs(o, how) == CASE how = "time" -> TimeSorted(o) [] how = "event" -> EvSorted(o) [] OTHER -> TRUE
Err(e) == e.exc # ""

FitClauses(e) == IF Err(e) THEN [FitError |-> FALSE] ELSE [FitKeepsInput |-> e.kept]
\* the occurrences of one pattern, in construction order, duplicates kept
SingleClauses(e) ==
  IF Err(e) THEN [ReconError |-> FALSE]
  ELSE [ OccursInLog |-> SetP(e.out) \subseteq st.log ]
ReconClauses(e) ==
  IF Err(e) THEN [ReconError |-> FALSE]
  ELSE [ ReconExact |-> SetP(e.out) = CovBy(Ids(e)),
         ReconInLog |-> SetP(e.out) \subseteq st.log,
         ReconOnce |-> e.drop => Cardinality(SetP(e.out)) = Len(e.out),
         ReconKeepsCopies |-> ~e.drop => EventBag(Pairs(e.out)) = EventBag(Pairs(Cat([k \in DOMAIN IdSeq(e) |-> st.occ[IdSeq(e)[k]]]))),
         ReconSorted |-> SortedAs(e.out, e.sort) ]
ResidClauses(e) ==
  IF Err(e) THEN [ResidError |-> FALSE]
  ELSE [ ResidComplement |-> SetP(e.out) = st.log \ CovBy(Ids(e)),
         ResidOnce |-> Cardinality(SetP(e.out)) = Len(e.out),
         ResidSorted |-> SortedAs(e.out, e.sort) ]
RowOk(r) == r.tree.r > 0 /\ Len(r.E) = NbOccs(r.tree) - 1
TableClauses(e) ==
  IF Err(e) THEN [TableError |-> FALSE]
  ELSE [ RowPerPattern |-> /\ Len(e.rows) = Len(st.occ)
                           /\ {e.rows[k].id + 1 : k \in DOMAIN e.rows} = DOMAIN st.occ,
         Chronological |-> e.chrono => \A k \in 1 .. Len(e.rows) - 1 : e.rows[k].t0 <= e.rows[k + 1].t0,
         InOrder |-> ~e.chrono => \A k \in DOMAIN e.rows : e.rows[k].id = k - 1,
         StartTime |-> \A k \in DOMAIN e.rows : e.rows[k].id + 1 \in DOMAIN st.occ => e.rows[k].t0 = st.occ[e.rows[k].id + 1][1][1],
         Major |-> \A k \in DOMAIN e.rows : e.text => (e.rows[k].rmaj = e.rows[k].tree.r /\ e.rows[k].pmaj = e.rows[k].tree.p),
         \* also of durations that are not written out: one repetition after another
         MajorPeriod |-> (e.exact /\ ~e.sum) => \A k \in DOMAIN e.rows :
             LET r == e.rows[k] IN r.id + 1 \in DOMAIN st.occ =>
               LET o == st.occ[r.id + 1] b == Len(o) \div r.rmaj IN
                 /\ r.rmaj > 1 /\ Len(o) % r.rmaj = 0 /\ Len(r.E) = Len(o) - 1
                 /\ \A i \in 1 .. r.rmaj - 1 : o[i * b + 1][1] = o[(i - 1) * b + 1][1] + r.pmaj + r.E[i * b],
         RowExpands |-> (e.text /\ ~e.sum) => \A k \in DOMAIN e.rows :
             e.rows[k].id + 1 \in DOMAIN st.occ =>
               /\ RowOk(e.rows[k])
               /\ Expand(e.rows[k].tree, e.rows[k].t0, With0(e.rows[k].E)) = Pairs(st.occ[e.rows[k].id + 1]),
         RowCounts |-> e.text => \A k \in DOMAIN e.rows :
             e.rows[k].id + 1 \in DOMAIN st.occ => NbOccs(e.rows[k].tree) = Len(st.occ[e.rows[k].id + 1]),
         \* the corrections are those that the tree needs to reach the events
         SumOfCorrections |-> (e.sum /\ e.text) => \A k \in DOMAIN e.rows :
             e.rows[k].id + 1 \in DOMAIN st.occ =>
               LET o == st.occ[e.rows[k].id + 1] IN
                 NbOccs(e.rows[k].tree) = Len(o) =>
                   e.rows[k].sumE = SumSeq([i \in DOMAIN o |-> Abs(Corrections(e.rows[k].tree, [j \in DOMAIN o |-> o[j][1]])[i])]) ]

\* costs: in 1/65536 bit, log2 table rounding: about half a unit per term
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
Terms(tree) == 8 * (NbOccs(tree) + 4)
CostClauses(e) ==
  IF Err(e) THEN [CostError |-> FALSE]
  ELSE LET tot == Cardinality(st.log)
           evs == {x[2] : x \in st.log}
           dd == [nb |-> [v \in evs |-> Cardinality({x \in st.log : x[2] = v})], tot |-> tot, dt |-> e.dt, end |-> e.dt]
           res == st.log \ CovBy(DOMAIN st.occ)
           list(S) == FoldSet(LAMBDA x, a : a + CostOne(dd, x[2]), 0, S)
           pcost == SumSeq([i \in DOMAIN e.pats |-> e.pats[i].cl])
       IN [ PatternCost |-> \A i \in DOMAIN e.pats :
                Near(e.pats[i].cl, CodeLength(e.pats[i].tree, e.pats[i].t0, With0(e.pats[i].E), dd), Terms(e.pats[i].tree)),
            PatternCostPositive |-> \A i \in DOMAIN e.pats : e.pats[i].cl > 0,
            SumOfPatterns |-> Near(e.patterns, pcost, Len(e.pats) + 2),
            ResidualCost |-> Near(e.residuals, list(res), 3 * tot + 3) /\ e.nres = Cardinality(res),
            ListingCost |-> Near(e.only, list(st.log), 3 * tot + 3),
            TotalIsSum |-> Near(e.total, e.patterns + e.residuals, 3) /\ Near(e.coll, e.total, 3),
            Ratio |-> e.only >= 64 =>
                LET k == e.only \div 1000000 + 1 IN Near(e.ratio, (1000 * (e.total \div k)) \div (e.only \div k), 3),
            NeverWorse |-> e.total <= e.only + 1,
            NewEach |-> \A i \in DOMAIN st.occ : SetP(st.occ[i]) \ CovBy(1 .. i - 1) # {},
            CountReported |-> e.npat = Len(st.occ) /\ Len(e.pats) = Len(st.occ) ]
\* a pattern made by hand, beside other events
MadeClauses(e) ==
  IF Err(e) THEN [CostError |-> FALSE]
  ELSE LET evs == {e.log[i][2] : i \in DOMAIN e.log}
           dd == [nb |-> [v \in evs |-> Cardinality({i \in DOMAIN e.log : e.log[i][2] = v})], tot |-> Len(e.log), dt |-> e.dt, end |-> e.dt]
       IN [ MadeTree |-> e.tree = e.want,
            MadeSpan |-> e.dt = Max({e.log[i][1] : i \in DOMAIN e.log}) - Min({e.log[i][1] : i \in DOMAIN e.log}),
            PatternCost |-> Near(e.cl, CodeLength(e.want, e.t0, With0(e.E), dd), Terms(e.want)),
            PatternCostPositive |-> e.cl > 0 ]
Clauses(e) ==
  CASE e.ev = "Fit" -> FitClauses(e)
    [] e.ev = "Single" /\ e.who = 1 -> SingleClauses(e)
    [] e.ev = "Single" /\ e.who = 2 -> IF Err(e) THEN [ImportError |-> FALSE]
                                       ELSE [ImportSameEvents |-> e.id + 1 \in DOMAIN st.occ /\ e.out = st.occ[e.id + 1]]
    [] e.ev = "Count" -> [ImportSameCount |-> e.n = Len(st.occ)]
    [] e.ev = "Recon" -> ReconClauses(e)
    [] e.ev = "Resid" -> ResidClauses(e)
    [] e.ev = "Table" -> TableClauses(e)
    [] e.ev = "Io" -> IF Err(e) THEN [IoError |-> FALSE] ELSE [IoKeeps |-> e.kept]
    [] e.ev = "Draw" -> IF Err(e) THEN [DrawError |-> FALSE]
                        ELSE [ DrawSame |-> e.tree = e.row.tree, DrawStart |-> e.t0 = e.row.t0 ]
    [] e.ev = "Same" -> [ImportSameTable |-> e.ok]
    [] e.ev = "Cost" -> CostClauses(e)
    [] e.ev = "Made" -> MadeClauses(e)
    [] OTHER -> [Unexpected |-> FALSE]
Failing(e) == LET cl == Clauses(e) IN {n \in DOMAIN cl : ~cl[n]}
After(e) ==
  IF e.ev = "Fit" /\ ~Err(e) THEN [log |-> SetP(e.log), occ |-> <<>>]
  ELSE IF e.ev = "Single" /\ e.who = 1 /\ ~Err(e) THEN [st EXCEPT !.occ = Append(@, e.out)]
  ELSE st
Events == Cases[c].events
Report(f) == \A n \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o n)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = [log |-> {}, occ |-> <<>>]
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ st' = After(Events[l])
             /\ l' = l + 1
             /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
