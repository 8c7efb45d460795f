---------------------------- MODULE BordersTrace ----------------------------
EXTENDS BordersCore, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
SetOf(s) == {s[i] : i \in DOMAIN s}
Fam(f) == {SetOf(f[i]) : i \in DOMAIN f}
Db(r) == [i \in DOMAIN r |-> SetOf(r[i])]
Bs(o) == {[left |-> Fam(o[i].left), right |-> SetOf(o[i].right)] : i \in DOMAIN o}
Sub(db) == SUBSET (UNION SetOf(db))

FitClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE LET d1 == Db(e.db1) d2 == Db(e.db2) b == Bs(e.borders)
       IN IF e.wide THEN
          [ Sound |-> (\A x \in b : x.right \subseteq UNION SetOf(d2)) /\ SoundWide(d1, d2, e.t1, e.t2, b),
            Complete |-> \/ CompleteWide(d1, d2, e.t1, e.t2, b)
                         \/ \A X \in Sub(d2) : Emerging(d1, d2, e.t1, e.t2, X) => Described(b, X) ]
          ELSE
          [ Sound |-> \A x \in b : x.right \subseteq UNION SetOf(d2)
                         /\ \A X \in SUBSET x.right : (\E y \in x.left : y \subseteq X) => Emerging(d1, d2, e.t1, e.t2, X),
            Complete |-> \A X \in Sub(d2) : Emerging(d1, d2, e.t1, e.t2, X) => Described(b, X) ]
Expected(b, n) == UNION {{X \in SUBSET x.right : Cardinality(X) >= n /\ StrictlyBetween({x}, X)} : x \in b}
DiscoverClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE [ ListedOnly |-> Fam(e.pats) \subseteq Expected(st.borders, e.min),
         ListedAll |-> Expected(st.borders, e.min) \subseteq Fam(e.pats),
         NoRepeatedItem |-> \A i \in DOMAIN e.pats : Cardinality(SetOf(e.pats[i])) = Len(e.pats[i]) ]
DiffClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE [ DiffRight |-> SetOf(e.right) = SetOf(e.U), DiffExact |-> DiffWide(SetOf(e.U), Fam(e.S), Fam(e.left)),
         DiffDefinition |-> Len(e.U) > 9 \/ DiffExact(SetOf(e.U), Fam(e.S), Fam(e.left)) ]
\* borders_to_patterns on any border, one side given by hand
EnumClauses(e) ==
  IF e.exc # "" THEN [NoError |-> FALSE]
  ELSE LET b == {[left |-> Fam(e.left), right |-> SetOf(e.right)]}
       IN [ EnumExact |-> Fam(e.pats) = Expected(b, e.min),
            EnumOnce |-> Cardinality(Fam(e.pats)) = Len(e.pats) ]
Clauses(e) ==
  CASE e.ev = "Fit" -> FitClauses(e)
    [] e.ev = "Discover" /\ st.ok -> DiscoverClauses(e)
    [] e.ev = "Diff" -> DiffClauses(e)
    [] e.ev = "Enum" -> EnumClauses(e)
    [] OTHER -> [Unexpected |-> FALSE]
Failing(e) == LET cl == Clauses(e) IN {n \in DOMAIN cl : ~cl[n]}
After(e) == IF e.ev = "Fit" /\ e.exc = "" THEN [ok |-> TRUE, borders |-> Bs(e.borders)] ELSE st

Events == Cases[c].events
Report(f) == \A n \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o n)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = [ok |-> FALSE, borders |-> {}]
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ st' = After(Events[l])
             /\ l' = l + 1
             /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
