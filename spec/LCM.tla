-------------------------------- MODULE LCM --------------------------------
(* The depth-first search of the closed (and maximal) itemset miner as a    *)
(* state machine: items are ranked by decreasing frequency; a node is       *)
(* (pattern, tids, limit); a node is kept iff its limit is the largest rank *)
(* added by closure (prefix-preserving closure extension); children extend  *)
(* with smaller ranks.                                                      *)
EXTENDS Itemsets, TLC, Json
CONSTANTS NItems, NTrans, MinSupps, EmitCases
VARIABLES db, ms, rank, stack, closedOut, leafOut
vars == <<db, ms, rank, stack, closedOut, leafOut>>

Thr == [kind |-> "abs", num |-> ms, den |-> 1]
FreqItems(d, m) == {i \in Items(d) : Cardinality(Tids(d, {i})) >= m}
Rankings(d, m) ==
  LET F == FreqItems(d, m)
  IN {r \in [F -> 0 .. Cardinality(F) - 1] :
        /\ \A a, b \in F : a # b => r[a] # r[b]
        /\ \A a, b \in F : Supp(d, {a}) > Supp(d, {b}) => r[a] < r[b]}

Ranked == DOMAIN rank
ItemOf(k) == CHOOSE i \in Ranked : rank[i] = k
Node(p, t, k) == [p |-> p, tids |-> t, limit |-> k]

RECURSIVE RevSeq(_)
RevSeq(s) == IF s = <<>> THEN <<>> ELSE Append(RevSeq(Tail(s)), Head(s))

Init == /\ db \in [1 .. NTrans -> SUBSET (1 .. NItems)]
        /\ ms \in MinSupps
        /\ rank \in Rankings(db, ms)
        /\ stack = [k \in 1 .. Cardinality(Ranked) |-> Node({}, Tids(db, {ItemOf(k - 1)}), k - 1)]
        /\ closedOut = <<>>
        /\ leafOut = <<>>

Explore ==
  /\ stack # <<>>
  /\ LET n == Head(stack)
         added == {i \in Ranked : n.tids \subseteq Tids(db, {i}) /\ i \notin n.p}
         top == IF added = {} THEN -1 ELSE CHOOSE k \in {rank[i] : i \in added} : \A i \in added : rank[i] <= k
     IN IF top # n.limit
        THEN /\ stack' = Tail(stack)
             /\ UNCHANGED <<closedOut, leafOut>>
        ELSE LET p == n.p \cup added
                 kids == {k \in 0 .. n.limit - 1 :
                            /\ ItemOf(k) \notin p
                            /\ Cardinality(n.tids \cap Tids(db, {ItemOf(k)})) >= ms}
                 next == [j \in 1 .. Cardinality(kids) |->
                            LET k == CHOOSE x \in kids : Cardinality({y \in kids : y < x}) = j - 1
                            IN Node(p, n.tids \cap Tids(db, {ItemOf(k)}), k)]
             IN /\ stack' = next \o Tail(stack)
                /\ closedOut' = Append(closedOut, [s |-> p, t |-> n.tids])
                /\ leafOut' = IF kids = {} THEN Append(leafOut, [s |-> p, t |-> n.tids]) ELSE leafOut
  /\ UNCHANGED <<db, ms, rank>>

Next == Explore
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OutSets(o) == {o[i].s : i \in DOMAIN o}
\* nothing wrong is ever emitted, and nothing twice
Sound == \A i \in DOMAIN closedOut :
            /\ closedOut[i].s \in ClosedFrequentDef(db, Thr)
            /\ closedOut[i].t = Tids(db, closedOut[i].s)
Once == \A i, j \in DOMAIN closedOut : i # j => closedOut[i].s # closedOut[j].s
\* when the search ends everything has been emitted
Complete == stack = <<>> =>
              /\ OutSets(closedOut) = ClosedFrequentDef(db, Thr)
              /\ MaximalOf(OutSets(leafOut)) = MaximalFrequentDef(db, Thr)
              /\ FixpointAgrees(db, Thr)
\* the search tree is never larger than the closed sets times the items
Emit == (stack = <<>> /\ EmitCases) =>
           PrintT("CASE|" \o ToJson([db |-> [i \in DOMAIN db |-> db[i]], ms |-> ms]))
Terminates == <>(stack = <<>>)
=============================================================================
