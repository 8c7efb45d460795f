---------------------------- MODULE EncodeTrace ----------------------------
(* Recorded encodings of unseen data: SLIM.cover / get_code_length (Encode), *)
(* the classifier (Train / Predict) and the feature extractor (Vectorize).   *)
EXTENDS SlimCore, TLC, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
TOL == 1000
SetOf(s) == {s[i] : i \in DOMAIN s}
Near(a, b) == a - b \in -TOL .. TOL
Rows(r) == [i \in DOMAIN r |-> SetOf(r[i])]
Keys(o) == {SetOf(o[i].x) : i \in DOMAIN o}
Table(o) == [X \in Keys(o) |-> LET r == CHOOSE r \in SetOf(o) : SetOf(r.x) = X IN {t + 1 : t \in SetOf(r.t)}]

(* Laplace-corrected code length of a cover under table ct *)
LaplaceTotal(ct) == SumOver(DOMAIN ct, LAMBDA X : Usage(ct, X) + 1)
CodeLen(ct, tot, used) == SumOver(used, LAMBDA X : Lg(tot) - Lg(Usage(ct, X) + 1))
KnownItems(ct) == UNION DOMAIN ct

(* all covers of a transaction the standard cover order allows (ties free)   *)
ValidRow(db, ct, row, used) ==
  /\ \A X, Y \in used : X # Y => X \cap Y = {}
  /\ UNION used = row \cap KnownItems(ct)
  /\ \A X \in DOMAIN ct \ used :
       (X # {} /\ X \subseteq row) => \E Y \in used : Y \cap X # {} /\ NoLater(db, Y, X)

\* greedy cover following the observed order of the table (ord: sequence of itemsets)
Greedy(ord, row) == LET u == CoverSeq(<<row>>, ord) IN {ord[k] : k \in {j \in DOMAIN u : u[j] # {}}}

INF == -1
EncodeClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE
  LET rows == Rows(e.rows)
      cols == [i \in DOMAIN e.cols |-> SetOf(e.cols[i])]
      used(r) == {cols[k] : k \in SetOf(e.mat[r])}
      tot == LaplaceTotal(st.ct)
      ok == /\ Len(e.mat) = Len(rows) /\ Len(e.lens) = Len(rows)
            /\ SetOf(cols) \subseteq DOMAIN st.ct /\ Cardinality(SetOf(cols)) = Len(cols)
  IN IF ~ok THEN [CoverShape |-> FALSE]
     ELSE [ CoverShape |-> TRUE,
            RowDisjoint |-> \A r \in DOMAIN rows : \A X, Y \in used(r) : X # Y => X \cap Y = {},
            RowKnown |-> \A r \in DOMAIN rows : UNION used(r) = rows[r] \cap KnownItems(st.ct),
            RowOrder |-> \A r \in DOMAIN rows : ValidRow(st.db, st.ct, rows[r], used(r)),
            Infinite |-> \A r \in DOMAIN rows : (e.lens[r] = INF) <=> (rows[r] \cap KnownItems(st.ct) = {}),
            CodeLength |-> \A r \in DOMAIN rows : e.lens[r] # INF =>
                              Near(e.lens[r], CodeLen(st.ct, tot, used(r))),
            \* the same transaction always gets the same cover and length from the same model
            Stable |-> \A r \in DOMAIN rows : \A q \in st.seen :
                          q.row = rows[r] => q.used = used(r) /\ q.len - e.lens[r] \in -2 .. 2,
            Pure |-> Table(e.ct) = st.ct ]
Seen(e) == LET rows == Rows(e.rows)
               cols == [i \in DOMAIN e.cols |-> SetOf(e.cols[i])]
           IN {[row |-> rows[r], used |-> {cols[k] : k \in SetOf(e.mat[r])}, len |-> e.lens[r]] : r \in DOMAIN rows}

(* ---------------- classifier ---------------- *)
ClassDb(e, k) == LET idx == SelectSeq([i \in DOMAIN e.y |-> i], LAMBDA i : e.y[i] = k)
                 IN [j \in DOMAIN idx |-> SetOf(e.X[idx[j]])]
TrainClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE IF ~(Len(e.models) = Len(e.classes) /\ SetOf(e.classes) = SetOf(e.y) /\ Len(e.classes) = Cardinality(SetOf(e.classes)))
  THEN [Classes |-> FALSE]
  ELSE [ Classes |-> TRUE,
         ClassData |-> \A k \in DOMAIN e.classes :
            Rows(e.models[k].recon) = ClassDb(e, e.classes[k]),
         ClassCover |-> \A k \in DOMAIN e.classes :
            LET d == ClassDb(e, e.classes[k]) ct == Table(e.models[k].ct)
            IN InRange(d, ct) /\ ValidCover(d, ct),
         Alphabet |-> \A k \in DOMAIN e.classes :
            Singletons(Table(e.models[k].ct), Items(ClassDb(e, e.classes[k])) \cup SetOf(e.items)),
         SameAsDirect |-> \A k \in DOMAIN e.classes : Table(e.models[k].ct) = Table(e.models[k].direct) ]

\* length of a row under a class model: any valid cover may be chosen among ties, so bound it by the observed order
RowLen(md, row) ==
  LET ord == [i \in DOMAIN md.ct |-> SetOf(md.ct[i].x)]
      ct == Table(md.ct)
      used == Greedy(ord, row)
  IN IF used = {} THEN INF ELSE CodeLen(ct, LaplaceTotal(ct), used)
PredictClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE IF Len(e.pred) # Len(e.rows) THEN [PredictShape |-> FALSE]
  ELSE
  LET rows == Rows(e.rows)
      len(k, r) == RowLen(st.models[k], rows[r])
  IN [ PredictShape |-> TRUE,
       IsClass |-> \A r \in DOMAIN rows : e.pred[r] \in SetOf(st.classes),
       Shortest |-> \A r \in DOMAIN rows :
           \A k \in {j \in DOMAIN st.classes : st.classes[j] = e.pred[r]} :
             \A j \in DOMAIN st.classes :
               LET a == len(k, r) b == len(j, r)
               IN b # INF => (a # INF /\ a <= b + 400 + 4 * Cardinality(rows[r])),
       RowWise |-> \A r \in DOMAIN rows : \A q \in st.seen : q.row = rows[r] => q.pred = e.pred[r] ]

(* ---------------- feature extractor ---------------- *)
VectorClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE
  LET stop == SetOf(e.stop)
      rows == [i \in DOMAIN e.rows |-> SetOf(e.rows[i]) \ stop]
      cols == [i \in DOMAIN e.cols |-> SetOf(e.cols[i])]
      elig == {X \in DOMAIN st.ct : X \subseteq UNION SetOf(rows)}
      u(X) == Usage(st.ct, X)
      tot == TotalUsage(st.ct)
      cov == CoverSeq(rows, cols)
      val(X) == IF e.strategy = "one-hot" THEN 1000000 ELSE (u(X) * 1000000) \div tot
  IN IF ~(SetOf(cols) \subseteq elig /\ Cardinality(SetOf(cols)) = Len(cols) /\ Len(e.mat) = Len(rows)
          /\ \A r \in DOMAIN e.mat : Len(e.mat[r]) = Len(cols))
     THEN [VectorShape |-> FALSE]
     ELSE [ VectorShape |-> TRUE,
            StopItems |-> (\A X \in DOMAIN st.ct : X \cap stop = {}),
            Columns |-> Len(cols) = IF e.k < Cardinality(elig) THEN e.k ELSE Cardinality(elig),
            TopUsage |-> \A X \in elig \ SetOf(cols) : \A k \in DOMAIN cols : u(cols[k]) >= u(X),
            UsageOrder |-> \A k \in 1 .. Len(cols) - 1 : u(cols[k]) >= u(cols[k + 1]),
            Cells |-> \A r \in DOMAIN rows : \A k \in DOMAIN cols :
                        e.mat[r][k] - (IF r \in cov[k] THEN val(cols[k]) ELSE 0) \in -5 .. 5,
            Pure |-> Table(e.ct) = st.ct ]

ModelClauses(e) == IF e.exc # "" THEN [NoError |-> FALSE] ELSE [Ok |-> TRUE]
Clauses(e) ==
  CASE e.ev = "Model" -> ModelClauses(e)
    [] e.ev = "Encode" /\ st.kind = "slim" -> EncodeClauses(e)
    [] e.ev = "Train" -> TrainClauses(e)
    [] e.ev = "Predict" /\ st.kind = "clf" -> PredictClauses(e)
    [] e.ev = "Vectorize" /\ st.kind = "slim" -> VectorClauses(e)
    [] OTHER -> [Unexpected |-> FALSE]
Failing(e) == LET cl == Clauses(e) IN {n \in DOMAIN cl : ~cl[n]}
After(e) ==
  CASE e.ev = "Model" /\ e.exc = "" ->
         [kind |-> "slim", db |-> Rows(e.db), ct |-> Table(e.ct), seen |-> {}]
    [] e.ev = "Encode" /\ e.exc = "" /\ st.kind = "slim" -> [st EXCEPT !.seen = @ \cup Seen(e)]
    [] e.ev = "Train" /\ e.exc = "" ->
         \* retraining on the same rows in another interleaving keeps what was predicted
         [kind |-> "clf", classes |-> e.classes, models |-> e.models,
          seen |-> IF e.sameasbefore /\ st.kind = "clf" THEN st.seen ELSE {}]
    [] e.ev = "Predict" /\ e.exc = "" /\ st.kind = "clf" ->
         [st EXCEPT !.seen = @ \cup {[row |-> SetOf(e.rows[r]), pred |-> e.pred[r]] : r \in DOMAIN e.rows \cap DOMAIN e.pred}]
    [] OTHER -> st

Events == Cases[c].events
Report(f) == \A n \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o n)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = [kind |-> "none"]
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ st' = After(Events[l])
             /\ l' = l + 1
             /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
