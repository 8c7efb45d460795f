------------------------------ MODULE Periodic ------------------------------
(* Periodic pattern mining as a selection of cycles: a candidate is accepted *)
(* only if it is cheaper than listing the events it newly covers; what no    *)
(* pattern covers is residual.  The heuristic order of the search is left    *)
(* open: any acceptable candidate may come next, and mining may stop at any  *)
(* moment.                                                                   *)
EXTENDS PatternCore, Json, TLC
CONSTANTS Times, NEv, MinEvents, MinCov, MaxPats, EmitCases
VARIABLES log, pats, done
vars == <<log, pats, done>>
Evs == 0 .. NEv - 1
Sorted(S) == SetToSortSeq(S, <)
\* the cycle over given times: period is the floor of the median gap, corrections follow
Gaps(s) == SortSeq([i \in 1 .. Len(s) - 1 |-> s[i + 1] - s[i]], <)
Period(s) == LET g == Gaps(s) n == Len(g)
             IN IF n % 2 = 1 THEN g[(n + 1) \div 2] ELSE (g[n \div 2] + g[n \div 2 + 1]) \div 2
CycleOver(e, S) == LET s == Sorted(S) p == Period(s) tr == Cycle(e, Len(s), p)
                   IN [tree |-> tr, t0 |-> s[1], E |-> Corrections(tr, s)]
Covered(p) == EventSet(Expand(p.tree, p.t0, p.E))
CovAll(ps) == UNION {Covered(ps[i]) : i \in DOMAIN ps}
Residual == log \ CovAll(pats)
DD == LET ts == {x[1] : x \in log}
      IN [nb |-> [e \in Evs |-> Cardinality({x \in log : x[2] = e})], tot |-> Cardinality(log),
          dt |-> Max(ts) - Min(ts), end |-> Max(ts)]
Cost(p) == CodeLength(p.tree, p.t0, p.E, DD)
ListCost(S) == FoldSet(LAMBDA x, a : a + CostOne(DD, x[2]), 0, S)
Total == FoldLeft(LAMBDA a, p : a + Cost(p), 0, pats) + ListCost(Residual)
Init == /\ log \in SUBSET (Times \X Evs) /\ Cardinality(log) >= MinEvents
        /\ pats = <<>> /\ done = FALSE
Select == /\ ~done /\ Len(pats) < MaxPats
          /\ \E e \in Evs : \E S \in SUBSET {x[1] : x \in {y \in log : y[2] = e}} :
               /\ Cardinality(S) >= 3
               /\ LET p == CycleOver(e, S) new == Covered(p) \ CovAll(pats)
                  IN /\ Cardinality(new) >= MinCov
                     /\ Cost(p) < ListCost(new)
                     /\ pats' = Append(pats, p)
          /\ UNCHANGED <<log, done>>
Stop == ~done /\ done' = TRUE /\ UNCHANGED <<log, pats>>
Next == Select \/ Stop
Spec == Init /\ [][Next]_vars
Lossless == CovAll(pats) \cup Residual = log /\ CovAll(pats) \cap Residual = {}
WithinLog == \A i \in DOMAIN pats : Covered(pats[i]) \subseteq log
Complement == \A ids \in SUBSET DOMAIN pats :
  LET rec == UNION {Covered(pats[i]) : i \in ids} IN (log \ rec) \cap rec = {} /\ Residual \subseteq log \ rec
NewEach == \A i \in DOMAIN pats : Covered(pats[i]) \ UNION {Covered(pats[k]) : k \in 1 .. i - 1} # {}
NeverWorse == Total <= ListCost(log)
Positive == \A i \in DOMAIN pats : Cost(pats[i]) > 0
Emit == (EmitCases /\ done /\ pats = <<>>) => PrintT("CASE|" \o ToJson(SetToSeq(log)))
=============================================================================
