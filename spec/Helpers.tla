------------------------------ MODULE Helpers ------------------------------
(* Bron-Kerbosch and the incremental maximal/minimal filters as machines.    *)
EXTENDS HelpersCore, Json, FiniteSetsExt
CONSTANTS Nodes, Univ, MaxFam, EmitCases
VARIABLES kind, adj, stack, found, fam, todo, kept
vars == <<kind, adj, stack, found, fam, todo, kept>>
Pairs == {p \in SUBSET Nodes : Cardinality(p) = 2}
Graph(E) == [v \in Nodes |-> {u \in Nodes : {u, v} \in E}]
Families == {F \in SUBSET (SUBSET Univ) : Cardinality(F) <= MaxFam}
Init == \/ /\ kind = "graph" /\ adj \in {Graph(E) : E \in SUBSET Pairs}
           /\ stack = <<[r |-> {}, p |-> Nodes, x |-> {}]>> /\ found = <<>> /\ fam = {} /\ todo = {} /\ kept = {}
        \/ /\ kind \in {"max", "min"} /\ fam \in Families
           /\ todo = fam /\ kept = {} /\ adj = <<>> /\ stack = <<>> /\ found = <<>>
\* expand one node of the candidates of the top frame
Expand == /\ kind = "graph" /\ stack # <<>>
          /\ LET f == stack[Len(stack)]
                 below == SubSeq(stack, 1, Len(stack) - 1)
             IN IF f.p = {}
                THEN /\ stack' = below
                     /\ found' = IF f.x = {} /\ Cardinality(f.r) > 2 THEN Append(found, f.r) ELSE found
                ELSE LET v == Min(f.p)
                     IN /\ stack' = below \o <<[f EXCEPT !.p = @ \ {v}, !.x = @ \cup {v}],
                                             [r |-> f.r \cup {v}, p |-> f.p \cap adj[v], x |-> f.x \cap adj[v]]>>
                        /\ found' = found
          /\ UNCHANGED <<kind, adj, fam, todo, kept>>
\* one itemset at a time, longest (shortest) first
Keep == /\ kind \in {"max", "min"} /\ todo # {}
        /\ \E X \in todo :
             /\ \A Y \in todo : IF kind = "max" THEN Cardinality(Y) <= Cardinality(X) ELSE Cardinality(Y) >= Cardinality(X)
             /\ todo' = todo \ {X}
             /\ kept' = IF kind = "max"
                        THEN IF \E Y \in kept : X \subseteq Y /\ X # Y THEN kept ELSE kept \cup {X}
                        ELSE IF \E Y \in kept : Y \subseteq X /\ X # Y THEN kept ELSE kept \cup {X}
        /\ UNCHANGED <<kind, adj, stack, found, fam>>
Next == Expand \/ Keep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
CliquesExact == (kind = "graph" /\ stack = <<>>) =>
   /\ Cardinality(Rng(found)) = Len(found)
   /\ Rng(found) = {K \in SUBSET Nodes : Cardinality(K) > 2 /\ MaximalClique(adj, K)}
GrownSame == (kind = "graph" /\ stack = <<>>) =>
   CliquesUpTo(adj, Cardinality(Nodes)) = {K \in SUBSET Nodes : MaximalClique(adj, K)}
FilterExact == (kind # "graph" /\ todo = {}) => kept = IF kind = "max" THEN MaximalOf(fam) ELSE MinimalOf(fam)
Emit == EmitCases =>
        /\ (kind = "graph" /\ stack = <<>>) => PrintT("CASE|" \o ToJson([kind |-> kind, adj |-> adj]))
        /\ (kind # "graph" /\ todo = {}) => PrintT("CASE|" \o ToJson([kind |-> kind, fam |-> fam]))
Terminates == <>(stack = <<>> /\ todo = {})
=============================================================================
