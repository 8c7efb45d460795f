----------------------------- MODULE SlimTrace -----------------------------
(* Recorded histories of a SLIM model against SlimCore.                     *)
(*  Begin    db, alphabet          a (pre)fit starts on this data            *)
(*  Step     obs                   the table after each accepted change      *)
(*  Ready    how ("fit"|"prefit"), obs, recon                                *)
(*  Evaluate x, usages, data, model, obs (afterwards)                        *)
(*  Update   x, obs, recon         interactive insertion                     *)
(*  Report   options, rows         the user's view                           *)
EXTENDS SlimCore, TLC, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
TOL == 1000                                  \* 0.015 bit
SetOf(s) == {s[i] : i \in DOMAIN s}
Near(a, b) == a - b \in -TOL .. TOL
IsSorted(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]

\* an observed table (list of [x, t]) as a function, and whether it is one
Keys(o) == {SetOf(o[i].x) : i \in DOMAIN o}
IsTable(o) == Cardinality(Keys(o)) = Len(o)
Table(o) == [X \in Keys(o) |-> LET r == CHOOSE r \in SetOf(o) : SetOf(r.x) = X IN {t + 1 : t \in SetOf(r.t)}]

TableClauses(o, data, model) ==
  IF ~IsTable(o) THEN [Table |-> FALSE]
  ELSE LET ct == Table(o) IN
  IF ~InRange(st.db, ct) THEN [InRange |-> FALSE]
  ELSE [ Table |-> TRUE,
         Singletons |-> Singletons(ct, st.alphabet),
         Alphabet |-> \A X \in DOMAIN ct : X \subseteq st.alphabet,
         Disjoint |-> \A t \in DOMAIN st.db : Disjoint(ct, t),
         ExactUnion |-> \A t \in DOMAIN st.db : ExactUnion(st.db, ct, t),
         CoverOrder |-> \A t \in DOMAIN st.db : CoverOrder(st.db, ct, t),
         DataSize |-> Near(data, DataSize(ct)),
         ModelSize |-> Near(model, ModelSize(st.db, ct)) ]

ReconClauses(e) ==
  [ ReconError |-> e.reconexc = "",
    ReconCount |-> e.reconexc = "" => Len(e.recon) = Len(st.db),
    Lossless |-> (e.reconexc = "" /\ Len(e.recon) = Len(st.db)) =>
                   \A t \in DOMAIN st.db : SetOf(e.recon[t]) = st.db[t],
    ReconSorted |-> \A t \in DOMAIN e.recon : IsSorted(e.recon[t]) ]

Merge(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN f THEN f[k] ELSE g[k]]

\* the table an evaluation announces, including entries it drops
Predicted(e) == Table(e.usages)

ReportClauses(e) ==
  IF e.exc # "" THEN [ReportError |-> FALSE]
  ELSE LET keep == {X \in DOMAIN st.ct : /\ (e.dropnull => st.ct[X] # {})
                                         /\ (~e.singletons => Cardinality(X) > 1)}
           got == {SetOf(e.rows[i].x) : i \in DOMAIN e.rows}
       IN [ ReportRows |-> got = keep /\ Len(e.rows) = Cardinality(keep),
            ReportUsage |-> \A i \in DOMAIN e.rows :
                              LET X == SetOf(e.rows[i].x)
                              IN X \in keep =>
                                   IF e.tids THEN {t + 1 : t \in SetOf(e.rows[i].t)} = st.ct[X]
                                             ELSE e.rows[i].u = Cardinality(st.ct[X]),
            ReportSorted |-> e.lex => \A i \in DOMAIN e.rows : IsSorted(e.rows[i].x) ]

Clauses(e) ==
  CASE e.ev = "Begin" -> [Ok |-> TRUE]
    [] e.ev = "Step" /\ st.on ->
         Merge(TableClauses(e.ct, e.data, e.model),
               [StrictlyShorter |-> e.data + e.model <= st.total + TOL])
    [] e.ev = "Ready" /\ st.on ->
         IF e.exc # "" THEN [NoError |-> FALSE]
         ELSE Merge(Merge(TableClauses(e.ct, e.data, e.model), ReconClauses(e)),
                    [NeverWorse |-> e.data + e.model <= st.base + TOL,
                     PrefitIsStandard |-> (e.how = "prefit" /\ IsTable(e.ct)) => Table(e.ct) = StandardTable(st.db, st.alphabet)])
    [] e.ev = "Evaluate" /\ st.on ->
         IF e.exc # "" THEN [NoError |-> FALSE]
         ELSE Merge(TableClauses(e.usages, e.data, e.model),
                    [EvalPure |-> IsTable(e.ct) /\ Table(e.ct) = st.ct /\ e.data2 = st.data /\ e.model2 = st.model,
                     EvalKeepsCandidate |-> (~e.pruning) => SetOf(e.x) \in Keys(e.usages)])
    [] e.ev = "Update" /\ st.on ->
         IF e.exc # "" THEN [NoError |-> FALSE]
         ELSE Merge(Merge(TableClauses(e.ct, e.data, e.model), ReconClauses(e)),
                    [InsertsCandidate |-> (~e.pruning) => SetOf(e.x) \in Keys(e.ct),
                     KeepsOthers |-> (~e.pruning) => DOMAIN st.ct \subseteq Keys(e.ct)])
    [] e.ev = "Report" /\ st.on -> ReportClauses(e)
    [] OTHER -> [Unexpected |-> FALSE]

Failing(e) == LET cl == Clauses(e) IN {n \in DOMAIN cl : ~cl[n]}

Saw(e) == [st EXCEPT !.ct = IF IsTable(e.ct) THEN Table(e.ct) ELSE @, !.data = e.data, !.model = e.model, !.total = e.data + e.model]
After(e) ==
  CASE e.ev = "Begin" ->
         LET d == [i \in DOMAIN e.db |-> SetOf(e.db[i])]
             a == SetOf(e.alphabet)
             std == StandardTable(d, a)
             b == TotalSize(d, std)
         IN [on |-> TRUE, db |-> d, alphabet |-> a, base |-> b, total |-> b, ct |-> std, data |-> 0, model |-> 0]
    [] e.ev \in {"Step", "Ready", "Update"} /\ st.on /\ e.exc = "" -> Saw(e)
    [] OTHER -> st

Events == Cases[c].events
Report(f) == \A n \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o n)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = [on |-> FALSE]
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ st' = After(Events[l])
             /\ l' = l + 1
             /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
