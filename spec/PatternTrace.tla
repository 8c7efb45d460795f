---------------------------- MODULE PatternTrace ----------------------------
(* Real pattern trees, expansions, corrections, factorisations and combined  *)
(* candidates against PatternCore.                                           *)
EXTENDS PatternCore, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
Pairs(o) == [i \in DOMAIN o |-> [t |-> o[i][1], ev |-> o[i][2]]]
Plain(s) == [i \in DOMAIN s |-> [t |-> s[i].t, ev |-> s[i].ev]]
Times(s) == [i \in DOMAIN s |-> s[i].t]
With0(E) == <<0>> \o E
WellFormed(t) == t.r > 0

\* what the operation should have made of the tree
Made(e) ==
  CASE e.op = "cycle" -> Cycle(e.e, e.r, e.p)
    [] e.op = "append" -> AddAt(st.tree, e.at, e.d, Leaf(e.e))
    [] e.op = "merge" -> AddAt(st.tree, e.at, e.d, e.sub)
    [] e.op = "repeat" -> Wrap(st.tree, e.r, e.p)
    [] e.op = "given" -> e.want
    [] OTHER -> st.tree
OpClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE IF e.op = "factor"
  THEN [ FactorKeeps |-> EventBag(Pairs(e.star)) = EventBag(Star(st.tree, 0, <<>>)),
         FactorTree |-> EventBag(Star(e.tree, 0, <<>>)) = EventBag(Star(st.tree, 0, <<>>)),
         Count |-> e.nb = NbOccs(st.tree) /\ e.card = NbOccs(st.tree) /\ Len(e.star) = NbOccs(st.tree) ]
  ELSE LET w == Made(e) s == Star(w, 0, <<>>)
       IN [ Count |-> e.nb = NbOccs(w) /\ e.card = NbOccs(w) /\ Len(e.star) = NbOccs(w),
            Positions |-> Pairs(e.star) = Plain(s),
            Structure |-> Plain(Star(e.tree, 0, <<>>)) = Plain(s),
            Events |-> e.minor = [i \in DOMAIN s |-> s[i].ev] /\ {e.alpha[i] : i \in DOMAIN e.alpha} = Alphabet(w),
            Shape |-> e.depth = Depth(w) /\ e.width = Leaves(w) ]
\* the original after something was done to its copy
AgainClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE [ CopyIndependent |-> Pairs(e.star) = Plain(Star(st.tree, 0, <<>>)) ]
ExpandClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE LET w == Expand(st.tree, e.t0, With0(e.E))
       IN [ ExpandTimes |-> e.times = Times(w), ExpandEvents |-> Pairs(e.cov) = w ]
InverseClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE [ CorrectionsExact |-> With0(e.E) = Corrections(st.tree, e.O),
         ExpandsBack |-> Len(e.E) = Len(e.O) - 1 /\ Times(Expand(st.tree, e.O[1], With0(e.E))) = e.O,
         CodeExpandsBack |-> e.back = e.O ]
\* a candidate: a tree with the times and corrections of its occurrences
Covers(x) == EventBag(Expand(x.tree, x.O[1], With0(x.E)))
Consistent(x) == /\ Len(x.O) = NbOccs(x.tree) /\ Len(x.E) = Len(x.O) - 1
                 /\ Times(Expand(x.tree, x.O[1], With0(x.E))) = x.O
FactoredClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE [ FactoredConsistent |-> \A i \in DOMAIN e.res : Consistent(e.res[i]),
         FactoredSame |-> \A i \in DOMAIN e.res : Covers(e.res[i]) = Covers(e.src) ]
\* candidates of a mining run on a log
PoolClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE LET log == {<<e.log[i][1], e.log[i][2]>> : i \in DOMAIN e.log}
       IN [ PoolConsistent |-> \A i \in DOMAIN e.cands : Consistent(e.cands[i]),
            PoolWithinLog |-> \A i \in DOMAIN e.cands : DOMAIN Covers(e.cands[i]) \subseteq log,
            PoolEvents |-> \A i \in DOMAIN e.cands :
                 e.cands[i].evocc = <<>> \/ Pairs(e.cands[i].evocc) = Expand(e.cands[i].tree, e.cands[i].O[1], With0(e.cands[i].E)) ]
\* combining candidates directly: nothing but events of the parts, all of them when nothing is cut off
CombineClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE LET all == FoldLeft(LAMBDA b, x : b (+) Covers(x), EmptyBag, e.parts) got == Covers(e.res)
       IN [ CombinedConsistent |-> Consistent(e.res),
            CombinedWithin |-> \A x \in DOMAIN got : x \in DOMAIN all /\ got[x] <= all[x],
            CombinedAll |-> e.full => got = all ]
Clauses(e) ==
  CASE e.ev = "Op" /\ (e.exc # "" \/ WellFormed(e.tree)) -> OpClauses(e)
    [] e.ev = "Again" -> AgainClauses(e)
    [] e.ev = "Expand" -> ExpandClauses(e)
    [] e.ev = "Inverse" -> InverseClauses(e)
    [] e.ev = "Factored" -> FactoredClauses(e)
    [] e.ev = "Pool" -> PoolClauses(e)
    [] e.ev = "Combine" -> CombineClauses(e)
    [] OTHER -> [Unexpected |-> FALSE]
Failing(e) == LET cl == Clauses(e) IN {n \in DOMAIN cl : ~cl[n]}
After(e) == IF e.ev = "Op" /\ e.exc = "" THEN [tree |-> e.tree] ELSE st
Events == Cases[c].events
Report(f) == \A n \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o n)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = [tree |-> Cycle(1, 1, 1)]
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ st' = After(Events[l])
             /\ l' = l + 1
             /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
