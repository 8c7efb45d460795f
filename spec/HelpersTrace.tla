---------------------------- MODULE HelpersTrace ----------------------------
EXTENDS HelpersCore, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
Fam(f) == {Rng(f[i]) : i \in DOMAIN f}
Copies(f, X) == Cardinality({i \in DOMAIN f : Rng(f[i]) = X})
FilterClauses(e, want) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE [ Exact |-> Fam(e.out) = want,
         \* nothing invented: no more copies than given
         NoInvention |-> \A X \in Fam(e.out) : Copies(e.out, X) <= Copies(e.fam, X),
         InputKept |-> e.kept ]
CliqueClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE LET adj == [v \in DOMAIN e.adj |-> Rng(e.adj[v])]
       IN [ OnlyMaximal |-> \A i \in DOMAIN e.out : Cardinality(Rng(e.out[i])) = Len(e.out[i]) /\ Len(e.out[i]) > 2
                               /\ Rng(e.out[i]) \subseteq DOMAIN adj /\ MaximalClique(adj, Rng(e.out[i])),
            Once |-> Cardinality(Fam(e.out)) = Len(e.out),
            All |-> e.part \/ LET outs == Fam(e.out)
                    IN IF Len(e.adj) <= 7 THEN \A K \in SUBSET DOMAIN adj : (Cardinality(K) > 2 /\ MaximalClique(adj, K)) => K \in outs
                       ELSE {K \in CliquesUpTo(adj, Len(e.adj)) : Cardinality(K) > 2} \subseteq outs,
            InputKept |-> e.kept ]
IntersectClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE LET want == CommonRows(e.a, e.b)
       IN [ Rows |-> e.out = want,
            Index1 |-> e.i1 = <<-1>> \/ e.i1 = [k \in DOMAIN want |-> FirstAt(e.a, want[k]) - 1],
            Index2 |-> e.i2 = <<-1>> \/ e.i2 = [k \in DOMAIN want |-> FirstAt(e.b, want[k]) - 1],
            InputKept |-> e.kept ]
\* every window of an array of any number of dimensions, over all its axes or some of them
WindowClauses(e) ==
  LET trim == Trimmed(e.shape, e.axes, e.w) want == trim \o e.w
  IN IF \E d \in DOMAIN trim : trim[d] < 1 THEN [Rejects |-> e.exc = "ValueError"]
     ELSE IF e.exc # "" THEN [NoError |-> FALSE]
     ELSE [ Count |-> e.oshape = want,
            Windows |-> e.oshape = want =>
                          \A p \in DOMAIN e.oflat : e.oflat[p] = WindowAt(e.shape, e.flat, e.axes, e.w, IndexAt(want, p - 1)),
            InputKept |-> e.kept ]
Clauses(e) ==
  CASE e.ev = "FilterMax" -> FilterClauses(e, MaximalOf(Fam(e.fam)))
    [] e.ev = "FilterMin" -> FilterClauses(e, MinimalOf(Fam(e.fam)))
    [] e.ev = "Cliques" -> CliqueClauses(e)
    [] e.ev = "Intersect" -> IntersectClauses(e)
    [] e.ev = "Window" -> WindowClauses(e)
    [] OTHER -> [Unexpected |-> FALSE]
Failing(e) == LET cl == Clauses(e) IN {n \in DOMAIN cl : ~cl[n]}

Events == Cases[c].events
Report(f) == \A n \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o n)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = 0
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ st' = 0
             /\ l' = l + 1
             /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
