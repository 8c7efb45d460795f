---------------------------- MODULE ItemsetTrace ----------------------------
(* Recorded runs of the closed / maximal itemset miners against Itemsets.   *)
(* State: what the miner has been fitted on. Events:                        *)
(*  Fit       kind, db (lists of item numbers), thr                          *)
(*  Transform maxlen (-1 none), lex, tids, file, rows, ...                   *)
EXTENDS Itemsets, TLC, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
SetOf(s) == {s[i] : i \in DOMAIN s}
Sorted(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]

Fitted == st.fitted

Expected(e) ==
  LET full == IF st.kind = "closed" THEN ClosedFrequent(st.db, st.thr) ELSE MaximalFrequent(st.db, st.thr)
  IN IF e.maxlen = -1 THEN full ELSE {X \in full : Cardinality(X) <= e.maxlen}

TransformClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE
  LET rows == e.rows
      got == {SetOf(rows[i].items) : i \in DOMAIN rows}
      exp == Expected(e)
  IN [ NoError |-> TRUE,
       Sound |-> got \subseteq exp,
       Complete |-> exp \subseteq got,
       Once |-> Cardinality(got) = Len(rows),
       NoRepeatedItem |-> \A i \in DOMAIN rows : Cardinality(SetOf(rows[i].items)) = Len(rows[i].items),
       Support |-> \A i \in DOMAIN rows : rows[i].supp = Supp(st.db, SetOf(rows[i].items)),
       Sorted |-> e.lex => \A i \in DOMAIN rows : Sorted(rows[i].items),
       TidsIffAsked |-> e.tids = e.hastids,
       Tids |-> (e.tids /\ e.hastids) =>
                  \A i \in DOMAIN rows : SetOf(rows[i].tids) = {t - 1 : t \in Tids(st.db, SetOf(rows[i].items))},
       TidsOnce |-> (e.tids /\ e.hastids) =>
                  \A i \in DOMAIN rows : Cardinality(SetOf(rows[i].tids)) = Len(rows[i].tids),
       FileMode |-> e.file = e.returnednone,
       NoLeftovers |-> e.leftovers = <<>>,
       OthersKept |-> e.otherskept,
       InputKept |-> e.inputkept ]

Clauses(e) ==
  CASE e.ev = "Fit" -> [NoError |-> e.exc = ""]
    [] e.ev = "Transform" /\ Fitted -> TransformClauses(e)
    [] OTHER -> [Unexpected |-> FALSE]

Failing(e) == LET cl == Clauses(e) IN {n \in DOMAIN cl : ~cl[n]}
After(e) == IF e.ev = "Fit" /\ e.exc = ""
            THEN [fitted |-> TRUE, kind |-> e.kind, thr |-> e.thr,
                  db |-> [i \in DOMAIN e.db |-> SetOf(e.db[i])]]
            ELSE st

Events == Cases[c].events
Report(f) == \A n \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o n)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = [fitted |-> FALSE]
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ st' = After(Events[l])
             /\ l' = l + 1
             /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
