----------------------------- MODULE GraphSearch -----------------------------
(* The anytime search over code tables. A table is a set of patterns of a    *)
(* pool; its length is any function; the candidates offered by a table are   *)
(* any patterns outside it, in any order; the clock may stop the search at    *)
(* any moment. A candidate is kept when it shortens the description, then     *)
(* patterns that may have become useless are tried out one by one.            *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Pool, MaxLen
VARIABLES len, table, best, tested, todo, mode, prune, seen, kept
vars == <<len, table, best, tested, todo, mode, prune, seen, kept>>
Tables == SUBSET Pool
Init == /\ len \in [Tables -> 1 .. MaxLen]
        /\ table = {} /\ best = len[{}] /\ tested = {} /\ todo = {} /\ mode = "generate" /\ prune = {}
        /\ seen = {len[{}]} /\ kept = <<>>
\* a candidate is identified by the patterns it combines, so it is not tried again even if the table has changed since
Generate == /\ mode = "generate"
            /\ \E C \in SUBSET (Pool \ table) : todo' = C
            /\ mode' = "try"
            /\ UNCHANGED <<len, table, best, tested, prune, seen, kept>>
Try == /\ mode = "try" /\ todo \ tested # {}
       /\ \E c \in todo \ tested :
            LET t == table \cup {c}
            IN /\ tested' = tested \cup {c}
               /\ seen' = seen \cup {len[t]}
               /\ IF len[t] < best
                  THEN /\ table' = t /\ best' = len[t] /\ kept' = Append(kept, <<best, len[t]>>)
                       /\ mode' = "prune" /\ prune' \in SUBSET table /\ todo' = {}
                  ELSE UNCHANGED <<table, best, kept, mode, prune, todo>>
       /\ UNCHANGED len
Exhausted == /\ mode = "try" /\ todo \ tested = {} /\ mode' = "end"
             /\ UNCHANGED <<len, table, best, tested, todo, prune, seen, kept>>
Prune == /\ mode = "prune"
         /\ IF prune = {} THEN mode' = "generate" /\ UNCHANGED <<table, best, prune, seen, kept>>
            ELSE \E r \in prune :
                   LET t == table \ {r}
                   IN /\ seen' = seen \cup {len[t]}
                      /\ IF len[t] < best
                         THEN /\ table' = t /\ best' = len[t] /\ kept' = Append(kept, <<best, len[t]>>)
                              /\ \E more \in SUBSET t : prune' = (prune \ {r}) \cup more
                         ELSE prune' = prune \ {r} /\ UNCHANGED <<table, best, kept>>
                      /\ mode' = mode
         /\ UNCHANGED <<len, tested, todo>>
Stop == /\ mode = "try" /\ mode' = "end" /\ UNCHANGED <<len, table, best, tested, todo, prune, seen, kept>>
Next == Generate \/ Try \/ Exhausted \/ Prune \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Generate \/ Try \/ Exhausted \/ Prune)
---------------------------------------------------------------------------
Consistent == best = len[table]
NeverLonger == best <= len[{}]
StrictlyShorter == \A i \in DOMAIN kept : kept[i][2] < kept[i][1]
BestSeen == \A x \in seen : best <= x
PruneInTable == mode = "prune" => prune \subseteq table
Terminates == <>(mode = "end")
=============================================================================
