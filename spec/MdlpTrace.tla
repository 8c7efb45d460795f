----------------------------- MODULE MdlpTrace -----------------------------
(* Recorded fits and transforms of the discretiser. Values are in eighths of *)
(* the training grid, so that midpoints and values just beside them are      *)
(* integers. Samples with equal values and different labels may be ordered   *)
(* in any way (documented), so a fit must match one of those orders.         *)
EXTENDS MdlpCore, SequencesExt, TLC, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
SetOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Perms(_)
Perms(q) == IF q = <<>> THEN {<<>>}
            ELSE UNION { LET k == CHOOSE k \in DOMAIN q : q[k] = v
                         IN {<<v>> \o p : p \in Perms(SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q)))} : v \in SetOf(q)}
RECURSIVE Product(_)
Product(g) == IF g = <<>> THEN {<<>>} ELSE {a \o b : a \in Perms(Head(g)), b \in Product(Tail(g))}
Values(x) == SetToSortSeq(SetOf(x), LAMBDA a, b : a < b)
LabelsAt(x, y, v) == LET idx == SelectSeq([i \in DOMAIN x |-> i], LAMBDA i : x[i] = v) IN [j \in DOMAIN idx |-> y[idx[j]]]
Orders(x, y) == LET vs == Values(x) IN Product([i \in DOMAIN vs |-> LabelsAt(x, y, vs[i])])
Mid(a, b) == (a + b) \div 2
CutValues(sx, o) == {Mid(sx[k], sx[k + 1]) : k \in o}
Expected(x, y) == LET sx == SortSeq(x, LAMBDA a, b : a < b)
                  IN UNION {{CutValues(sx, o) : o \in Outcomes(q, 0, Len(x))} : q \in Orders(x, y)}
\* equal values always have equal labels: the order of the labels is then determined
Pure(x, y) == \A v \in SetOf(x) : Cardinality(SetOf(LabelsAt(x, y, v))) = 1
SortedLabels(x, y) == LET o == SortSeq([i \in DOMAIN x |-> i], LAMBDA i, j : x[i] < x[j]) IN [i \in DOMAIN o |-> y[o[i]]]
Valid(x, y, C) ==
  IF Pure(x, y)
  THEN LET sx == SortSeq(x, LAMBDA a, b : a < b)
           P == {k \in 1 .. Len(x) - 1 : sx[k] < sx[k + 1] /\ Mid(sx[k], sx[k + 1]) \in C}
       IN CutValues(sx, P) = C /\ Admits(SortedLabels(x, y), 0, Len(x), P)
  ELSE C \in Expected(x, y)

FitClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE IF Len(e.cuts) # Len(e.cols) THEN [ColumnsKnown |-> FALSE]
  ELSE [ ColumnsKnown |-> TRUE,
         Increasing |-> \A j \in DOMAIN e.cuts : \A i \in 1 .. Len(e.cuts[j]) - 1 : e.cuts[j][i] < e.cuts[j][i + 1],
         Midpoints |-> \A j \in DOMAIN e.cuts :
              LET sx == SortSeq(e.cols[j], LAMBDA a, b : a < b)
              IN SetOf(e.cuts[j]) \subseteq {Mid(sx[k], sx[k + 1]) : k \in 1 .. Len(sx) - 1},
         Partition |-> \A j \in DOMAIN e.cuts : Valid(e.cols[j], e.y, SetOf(e.cuts[j])),
         Discover |-> e.view = e.cuts ]
\* rows[r][j] is the value of row r in the j-th column of the table passed, which is fitted column e.names[j]
TransformClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE IF ~(Len(e.bins) = Len(e.rows) /\ \A r \in DOMAIN e.bins : Len(e.bins[r]) = Len(e.names))
  THEN [Shape |-> FALSE]
  ELSE [ Shape |-> TRUE,
         Names |-> e.outnames = e.names,
         Binning |-> \A r \in DOMAIN e.rows : \A j \in DOMAIN e.names :
             e.bins[r][j] = Cardinality({i \in DOMAIN st.cuts[e.names[j]] : st.cuts[e.names[j]][i] < e.rows[r][j]}) ]
Clauses(e) ==
  CASE e.ev = "Fit" -> FitClauses(e)
    [] e.ev = "Transform" /\ st.cuts # <<>> -> TransformClauses(e)
    [] OTHER -> [Unexpected |-> FALSE]
Failing(e) == LET cl == Clauses(e) IN {n \in DOMAIN cl : ~cl[n]}
After(e) == IF e.ev = "Fit" /\ e.exc = "" THEN [cuts |-> e.cuts] ELSE st

Events == Cases[c].events
Report(f) == \A n \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o n)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = [cuts |-> <<>>]
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ st' = After(Events[l])
             /\ l' = l + 1
             /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
