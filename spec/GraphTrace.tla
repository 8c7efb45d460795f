----------------------------- MODULE GraphTrace -----------------------------
(* Recorded code tables, covers, merged candidates and fits of the graph     *)
(* miner. Vertices, pattern vertices and labels are numbers; vertex and edge *)
(* labels are numbered apart.                                                *)
EXTENDS GraphCore, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
G(j) == [n |-> j.n, lab |-> [i \in 1 .. j.n |-> ToSet(j.lab[i])], edges |-> ToSet(j.edges)]
Count(S) == Cardinality(S)

OccClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE [ AllOccurrences |-> ToSet(e.occs) = Occs(G(e.p), G(e.g)),
         NoRepeat |-> Len(e.occs) = Cardinality(ToSet(e.occs)) ]

MergeClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE LET want == Glue(G(e.p), G(e.q), ToSet(e.ports))
           got == G(e.res)
       IN [ Merged |-> /\ got.n = want.n /\ got.edges = want.edges
                       /\ \A v \in 1 .. got.n : got.lab[v] = want.lab[v],
            NoLabelTwice |-> \A v \in 1 .. got.n : Len(e.res.lab[v]) = Count(got.lab[v]) ]

---------------------------------------------------------------------------
\* a cover: rows with the occurrences used, and the rewritten graph, whose elements are [kind, id, ports] with ports a
\* sequence of <<data vertex, pattern vertex>>
CoverClauses(e) ==
  LET g == G(e.g)
      NR == Len(e.rows)
      p == [i \in 1 .. NR |-> G(e.rows[i].p)]
      els == UNION {{<<i, j>> : j \in DOMAIN e.rows[i].used} : i \in 1 .. NR}
      occ(x) == e.rows[x[1]].used[x[2]].m
      prt(x) == ToSet(e.rows[x[1]].used[x[2]].ports)
      ei(x) == EdgeImg(p[x[1]], occ(x))
      li(x) == LabImg(p[x[1]], occ(x))
      ve == {k \in DOMAIN e.rw : e.rw[k].kind = "V"}
      ee == {k \in DOMAIN e.rw : e.rw[k].kind = "E"}
      pe(i) == {k \in DOMAIN e.rw : e.rw[k].kind = "P" /\ e.rw[k].id = i}
      \* the edge described by an edge singleton; the two ends of a loop are one port
      at(k, v) == {q[1] : q \in {r \in ToSet(e.rw[k].ports) : r[2] = v}}
      edgeOf(k) == IF Len(e.rw[k].ports) = 1
                   THEN <<e.rw[k].ports[1][1], e.rw[k].ports[1][1], e.rw[k].id>>
                   ELSE <<CHOOSE x \in at(k, 1) : TRUE, CHOOSE x \in at(k, 2) : TRUE, e.rw[k].id>>
      labOf(k) == <<e.rw[k].ports[1][1], e.rw[k].id>>
      shapes == /\ \A k \in ve : Len(e.rw[k].ports) = 1
                /\ \A k \in ee : Len(e.rw[k].ports) = 1 \/ (Len(e.rw[k].ports) = 2 /\ at(k, 1) # {} /\ at(k, 2) # {})
                /\ \A k \in DOMAIN e.rw : e.rw[k].kind # "P" \/ e.rw[k].id \in 1 .. NR
      true == \A x \in els : IsOcc(p[x[1]], occ(x), g)
      \* data vertices touched by something else than x
      shared(x, v) == \/ \E y \in els : y # x /\ occ(x)[v] \in NodesImg(occ(y))
                      \/ \E k \in ve \cup ee : \E q \in ToSet(e.rw[k].ports) : q[1] = occ(x)[v]
      named(x) == {<<occ(x)[v], v>> : v \in prt(x)}
      pats == 1 .. NR
  IN IF e.exc # "" THEN [NoError |-> FALSE]
     ELSE IF ~shapes THEN [RewrittenShape |-> FALSE]
     ELSE IF ~true THEN [TrueOccurrences |-> FALSE]
     ELSE
     [ TrueOccurrences |-> TRUE,
       Usage |-> \A i \in pats : /\ e.rows[i].usage = Len(e.rows[i].used)
                                 /\ Count(pe(i)) = e.rows[i].usage,
       PortUsage |-> \A i \in pats : \A v \in 1 .. p[i].n :
            Count({j \in DOMAIN e.rows[i].used : v \in ToSet(e.rows[i].used[j].ports)}) =
              Sum({k \in DOMAIN e.rows[i].pu : e.rows[i].pu[k][1] = v}, LAMBDA k : e.rows[i].pu[k][2]),
       EdgeOnce |-> \A x \in g.edges : Count({y \in els : x \in ei(y)}) + Count({k \in ee : edgeOf(k) = x}) = 1,
       EdgeSingletonsTrue |-> \A k \in ee : edgeOf(k) \in g.edges,
       LabelCovered |-> \A x \in LabelsOf(g) :
            LET n == Count({k \in ve : labOf(k) = x}) IN n = (IF \E y \in els : x \in li(y) THEN 0 ELSE 1),
       VertexSingletonsTrue |-> \A k \in ve : labOf(k) \in LabelsOf(g),
       SingletonUsage |->
            /\ \A a \in VLabels(g) : Count({k \in ve : e.rw[k].id = a}) =
                   Sum({i \in DOMAIN e.sv : e.sv[i][1] = a}, LAMBDA i : e.sv[i][2])
            /\ \A a \in ELabels(g) : Count({k \in ee : e.rw[k].id = a}) =
                   Sum({i \in DOMAIN e.se : e.se[i][1] = a}, LAMBDA i : e.se[i][2]),
       Greedy |-> \A i \in pats : \A f \in Occs(p[i], g) \ {e.rows[i].used[j].m : j \in DOMAIN e.rows[i].used} :
            LET before == {x \in els : x[1] <= i}
            IN IF p[i].edges # {} THEN \E x \in before : ei(x) \cap EdgeImg(p[i], f) # {}
               ELSE LabImg(p[i], f) \subseteq UNION {li(x) : x \in before},
       RewrittenPorts |-> \A i \in pats : \A s \in {named(<<i, j>>) : j \in DOMAIN e.rows[i].used} :
            Count({j \in DOMAIN e.rows[i].used : named(<<i, j>>) = s}) = Count({k \in pe(i) : ToSet(e.rw[k].ports) = s}),
       Lossless |-> \A x \in els : \A v \in 1 .. p[x[1]].n : shared(x, v) => v \in prt(x),
       PortsListed |-> ToSet(e.listed) = UNION {{q[1] : q \in ToSet(e.rw[k].ports)} : k \in DOMAIN e.rw} /\ Len(e.listed) = Count(ToSet(e.listed)),
       PortsNamed |-> e.nports = Count(UNION {{q[1] : q \in ToSet(e.rw[k].ports)} : k \in DOMAIN e.rw}) ]

---------------------------------------------------------------------------
\* lengths of the table and of the rewritten graph of a cover
TableLength(e, g) ==
  SumSeq([i \in DOMAIN e.rows |-> IF e.rows[i].usage = 0 THEN 0 ELSE RowLength(G(e.rows[i].p), g, Len(e.rows[i].pu))])
  + SumSeq([i \in DOMAIN e.sv |-> VSingleLength(g, e.sv[i][1])])
  + SumSeq([i \in DOMAIN e.se |-> ESingleLength(g, e.se[i][1])])
Used(e) == SelectSeq(e.rows, LAMBDA r : r.usage # 0)
GraphLength(e) ==
  LET used == Used(e)
      usages == [i \in DOMAIN used |-> used[i].usage] \o [i \in DOMAIN e.sv |-> e.sv[i][2]] \o [i \in DOMAIN e.se |-> e.se[i][2]]
  IN Universal0(Len(e.rw)) + Lg(e.nports + 1)
     + SumSeq([i \in DOMAIN used |-> used[i].usage * Lg(Len(used[i].pu) + 1)])
     + SumSeq([i \in DOMAIN e.sv |-> e.sv[i][2] * Lg(2)]) + SumSeq([i \in DOMAIN e.se |-> e.se[i][2] * Lg(3)])
     + Prequential(usages) + Prequential(e.degrees)
     + SumSeq([i \in DOMAIN used |-> Prequential([k \in DOMAIN used[i].pu |-> used[i].pu[k][2]])])
     + SumSeq([i \in DOMAIN e.se |-> Prequential(<<e.se[i][2], e.se[i][2]>>)])
TOL == 400
Near(a, b) == a - b <= TOL /\ b - a <= TOL
\* the displayed table: usages, codes of the rows and singletons (their share of all usages), of the ports (of the port usages of the row)
Usages(e) == LET used == Used(e) IN [i \in DOMAIN used |-> used[i].usage] \o [i \in DOMAIN e.sv |-> e.sv[i][2]] \o [i \in DOMAIN e.se |-> e.se[i][2]]
Code(n, total) == Lg(total) - Lg(n)
ShownRow(r, p, all) ==
  LET pus == [k \in DOMAIN r.pu |-> r.pu[k][2]]
  IN /\ p.usage = r.usage /\ Near(p.code, Code(r.usage, all)) /\ p.n = Len(r.pu)
     /\ p.pu = SortSeq(pus, <) /\ Len(p.ports) = Len(r.pu)
     /\ \A k \in DOMAIN p.ports : Near(p.ports[k][2], Code(p.ports[k][1], SumSeq(pus)))
Displayed(e) ==
  LET used == Used(e)
      all == SumSeq(Usages(e))
      s == e.shown.singles
      shows(x, at) == \E k \in DOMAIN s : s[k][at] = x[1] /\ s[k][3] = x[2] /\ Near(s[k][4], Code(x[2], all))
  IN /\ Len(e.shown.pats) = Len(used) /\ \A i \in DOMAIN used : ShownRow(used[i], e.shown.pats[i], all)
     /\ Len(s) = Len(e.sv) + Len(e.se)
     /\ \A i \in DOMAIN e.sv : shows(e.sv[i], 1)
     /\ \A i \in DOMAIN e.se : shows(e.se[i], 2)
LengthClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE LET g == G(e.g)
       IN [ TableLength |-> Near(e.ct_len, TableLength(e, g)),
            DisplayedTable |-> Displayed(e),
            GraphLength |-> Near(e.rw_len, GraphLength(e)),
            TotalLength |-> Near(e.len, e.ct_len + e.rw_len),
            RowLengths |-> \A i \in DOMAIN e.rows : e.rows[i].usage # 0 =>
                               Near(e.rows[i].len, RowLength(G(e.rows[i].p), g, Len(e.rows[i].pu))) ]
\* a fit: lengths as ranks among all the lengths recorded (exact comparison); evals are the tables whose length was
\* computed, as sequences of row identities, in order
FitClauses(e) ==
  IF e.exc # "" THEN [Ends |-> e.exc # "Timeout", NoError |-> e.exc = "Timeout"]
  ELSE LET n == Len(e.evals)
           rowsAt(i) == IF i = 0 THEN {} ELSE IF i > n THEN ToSet(e.final) ELSE ToSet(e.evals[i].rows)
           \* table i + 1 differs from the table in force before; it is kept when the change is still there in the next one
           RECURSIVE Run(_, _, _)
           Run(i, cur, best) ==
             IF i > n THEN [ok |-> cur = ToSet(e.final), best |-> best]
             ELSE LET t == rowsAt(i)
                      next == rowsAt(i + 1)
                      stays == t = cur \/ ((t \ cur) \subseteq next /\ (cur \ t) \cap next = {})
                  IN IF t = cur THEN (IF e.evals[i].rank = best THEN Run(i + 1, cur, best) ELSE [ok |-> FALSE, best |-> best])
                     ELSE IF stays THEN (IF e.evals[i].rank < best \/ (t \subseteq cur /\ e.evals[i].rank = best) THEN Run(i + 1, t, e.evals[i].rank) ELSE [ok |-> FALSE, best |-> best])
                     ELSE Run(i + 1, cur, best)
           r == Run(1, {}, e.irank)
       IN [ NeverLonger |-> e.rank <= e.irank,
            KeptShortens |-> n = 0 \/ r.ok,
            BestKept |-> \A i \in 1 .. n : e.rank <= e.evals[i].rank,
            InitialLength |-> Near(e.ilen, e.ilen2),
            Reported |-> e.rank = e.trank,
            FarBudget |-> e.free,  \* a budget that never runs out changes nothing
            Patterns |-> /\ e.npat = Len(Used(e)) + Len(e.sv) + Len(e.se)
                         /\ e.nrowpat = Len(Used(e))
                         /\ ToSet(e.patv) = {e.sv[i][1] : i \in DOMAIN e.sv}
                         /\ ToSet(e.pate) = {e.se[i][1] : i \in DOMAIN e.se} ]
Clauses(e) ==
  CASE e.ev = "Occs" -> OccClauses(e)
    [] e.ev = "Merge" -> MergeClauses(e)
    [] e.ev = "Cover" -> CoverClauses(e)
    [] e.ev = "Lengths" -> LengthClauses(e)
    [] e.ev = "Fit" -> FitClauses(e)
    [] OTHER -> [Unexpected |-> FALSE]
Failing(e) == LET cl == Clauses(e) IN {n \in DOMAIN cl : ~cl[n]}
Events == Cases[c].events
Report(f) == \A n \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o n)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = 0
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ st' = 0 /\ l' = l + 1 /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
