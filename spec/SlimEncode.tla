----------------------------- MODULE SlimEncode -----------------------------
(* Encoding a batch of unseen transactions with an ordered list of itemsets *)
(* the way the code does it: itemset by itemset over the whole batch         *)
(* (vertically). The invariants say that this is the per-transaction greedy  *)
(* cover, independent of the rest of the batch, that it partitions the known *)
(* items of each transaction, and that code lengths add up; also the rule by *)
(* which a classifier picks the shortest of two code lengths.                *)
EXTENDS SlimCore, SequencesExt, TLC
CONSTANTS NItems, NRows, Unknown
VARIABLES order, batch, pos, rest, use
vars == <<order, batch, pos, rest, use>>
I == 1 .. NItems
Multi == {X \in SUBSET I : Cardinality(X) > 1}
Single == SetToSortSeq({{i} : i \in I}, LAMBDA a, b : Max(a) < Max(b))
Perms(S) == {p \in [1 .. Cardinality(S) -> S] :
               /\ \A a, b \in DOMAIN p : a # b => p[a] # p[b]
               /\ \A a, b \in DOMAIN p : a < b => Cardinality(p[a]) >= Cardinality(p[b])}
Init == /\ \E S \in SUBSET Multi : \E p \in Perms(S) : order = p \o Single
        /\ batch \in [1 .. NRows -> SUBSET (I \cup Unknown)]
        /\ pos = 1 /\ rest = batch
        /\ use = [X \in ToSet(order) |-> {}]
Next == /\ pos <= Len(order)
        /\ LET X == order[pos]
               t == {r \in DOMAIN batch : X \subseteq rest[r]}
           IN /\ use' = [use EXCEPT ![X] = t]
              /\ rest' = [r \in DOMAIN rest |-> IF r \in t THEN rest[r] \ X ELSE rest[r]]
        /\ pos' = pos + 1
        /\ UNCHANGED <<order, batch>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pos > Len(order)
\* the greedy cover of one transaction on its own
Alone(r) == LET u == CoverSeq(<<batch[r]>>, order) IN {order[k] : k \in {j \in DOMAIN u : u[j] # {}}}
PerRow == Done => \A r \in DOMAIN batch : UsedIn(use, r) = Alone(r)
Partition == \A r \in DOMAIN batch : Disjoint(use, r) /\ UNION UsedIn(use, r) = batch[r] \ rest[r]
Known == Done => \A r \in DOMAIN batch : rest[r] = batch[r] \cap Unknown
\* any skipped entry clashes with an entry used earlier
Greedy == Done => \A r \in DOMAIN batch : \A k \in DOMAIN order :
            (order[k] \subseteq batch[r] /\ r \notin use[order[k]]) =>
               \E j \in 1 .. k - 1 : r \in use[order[j]] /\ order[j] \cap order[k] # {}
=============================================================================
