-------------------------------- MODULE Graph --------------------------------
(* Covering a labelled graph with a list of patterns then with singletons,    *)
(* one occurrence at a time, in any order of the occurrences of a pattern.    *)
(* An occurrence with edges may be used when none of its edges is described   *)
(* yet; one without edges when one of its labels is not.                      *)
EXTENDS GraphCore, Json
CONSTANTS N, LabSets, ELs, Loops, MaxRows, EmitCases, Pool
VARIABLES g, rows, k, used, ports, de, dl
vars == <<g, rows, k, used, ports, de, dl>>
Pat(n, lab, edges) == [n |-> n, lab |-> lab, edges |-> edges]
Patterns == << Pat(1, <<{1, 2}>>, {}),
               Pat(2, <<{}, {}>>, {<<1, 2, 1>>}),
               Pat(2, <<{1}, {}>>, {<<1, 2, 1>>}),
               Pat(2, <<{}, {1}>>, {<<1, 2, 1>>}),
               Pat(2, <<{1}, {1, 2}>>, {<<1, 2, 1>>}),
               Pat(3, <<{}, {1}, {}>>, {<<1, 2, 1>>, <<2, 3, 1>>}),
               Pat(3, <<{}, {}, {}>>, {<<1, 2, 1>>, <<1, 3, 1>>}),
               Pat(2, <<{}, {}>>, {<<1, 2, 1>>, <<2, 1, 1>>}),
               Pat(2, <<{}, {2}>>, {<<1, 2, 1>>, <<1, 2, 2>>}),
               Pat(1, <<{}>>, {<<1, 1, 1>>}),
               Pat(1, <<{1}>>, {}) >>
Pairs == {x \in (1 .. N) \X (1 .. N) : Loops \/ x[1] # x[2]}
Graphs == {[n |-> N, lab |-> lab, edges |-> E] : lab \in [1 .. N -> LabSets], E \in SUBSET {<<x[1], x[2], a>> : x \in Pairs, a \in ELs}}
Init == /\ g \in {h \in Graphs : h.edges # {} \/ \E v \in 1 .. N : h.lab[v] # {}}
        /\ \E m \in 0 .. MaxRows : \E s \in [1 .. m -> Pool] :
             /\ \A i, j \in DOMAIN s : i # j => s[i] # s[j]
             /\ rows = s
        /\ k = 1 /\ used = [i \in DOMAIN rows |-> {}] /\ ports = {} /\ de = {} /\ dl = {}
P(i) == Patterns[rows[i]]
Usable(p, f) == IF p.edges # {} THEN EdgeImg(p, f) \cap de = {} ELSE ~(LabImg(p, f) \subseteq dl)
\* decided when the occurrence is used, before what it describes is marked
LocalPort(p, f, v) == \/ EdgesAt(g, f[v]) # EdgesAt([n |-> g.n, lab |-> g.lab, edges |-> EdgeImg(p, f)], f[v])
                      \/ g.lab[f[v]] # p.lab[v]
                      \/ \E a \in g.lab[f[v]] : <<f[v], a>> \in dl
Use == /\ k <= Len(rows)
       /\ \E f \in Occs(P(k), g) \ used[k] :
            /\ Usable(P(k), f)
            /\ used' = [used EXCEPT ![k] = @ \cup {f}]
            /\ ports' = ports \cup {<<k, f, v>> : v \in {x \in 1 .. P(k).n : LocalPort(P(k), f, x)}}
            /\ de' = de \cup EdgeImg(P(k), f) /\ dl' = dl \cup LabImg(P(k), f)
       /\ UNCHANGED <<g, rows, k>>
NextRow == /\ k <= Len(rows) /\ \A f \in Occs(P(k), g) \ used[k] : ~Usable(P(k), f)
           /\ k' = k + 1 /\ UNCHANGED <<g, rows, used, ports, de, dl>>
Next == Use \/ NextRow
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
Done == k > Len(rows)
SE == g.edges \ de                    \* described by singletons
SL == LabelsOf(g) \ dl
Els == UNION {{<<i, f>> : f \in used[i]} : i \in DOMAIN rows}
EdgeOnce == \A e \in g.edges : Cardinality({x \in Els : e \in EdgeImg(P(x[1]), x[2])}) = IF e \in de THEN 1 ELSE 0
LabelMarked == dl = UNION {LabImg(P(x[1]), x[2]) : x \in Els} /\ dl \subseteq LabelsOf(g) /\ de \subseteq g.edges
\* a skipped occurrence clashes with one used earlier
Greedy == Done => \A i \in DOMAIN rows : \A f \in Occs(P(i), g) \ used[i] :
            LET before == {x \in Els : x[1] <= i}
            IN IF P(i).edges # {} THEN \E x \in before : EdgeImg(P(x[1]), x[2]) \cap EdgeImg(P(i), f) # {}
               ELSE LabImg(P(i), f) \subseteq UNION {LabImg(P(x[1]), x[2]) : x \in before}
\* the local decision taken while covering is the global one: another element describes something at that vertex
Shared(i, f, v) == \/ \E x \in Els : x # <<i, f>> /\ f[v] \in NodesImg(x[2])
                   \/ EdgesAt(g, f[v]) \cap SE # {}
                   \/ \E a \in g.lab[f[v]] : <<f[v], a>> \in SL
PortsExact == Done => \A i \in DOMAIN rows : \A f \in used[i] : \A v \in 1 .. P(i).n : (<<i, f, v>> \in ports) <=> Shared(i, f, v)
\* the vertices rebuilt from the rewritten graph: the ports, by name, and the inner vertices of every occurrence
Named == {x[2][x[3]] : x \in ports} \cup UNION {{e[1], e[2]} : e \in SE} \cup {x[1] : x \in SL}
Inner == UNION {{<<i, f, v>> : f \in used[i], v \in 1 .. P(i).n} : i \in DOMAIN rows} \ ports
Lossless == Done => /\ \A x \in Inner : x[2][x[3]] \notin Named
                    /\ \A x, y \in Inner : x[2][x[3]] = y[2][y[3]] => x = y
                    /\ \A v \in 1 .. g.n : (EdgesAt(g, v) # {} \/ g.lab[v] # {}) =>
                          v \in Named \/ \E x \in Inner : x[2][x[3]] = v
OccsExact == (k = 1 /\ de = {} /\ dl = {}) => \A i \in DOMAIN rows : Occs(P(i), g) = OccsByDef(P(i), g)
Terminates == <>Done
JG(h) == [n |-> h.n, lab |-> [v \in 1 .. h.n |-> SetToSeq(h.lab[v])], edges |-> SetToSeq(h.edges)]
Emit == (EmitCases /\ k = 1 /\ de = {} /\ dl = {}) => PrintT("CASE|" \o ToJson([g |-> JG(g), rows |-> [i \in DOMAIN rows |-> JG(P(i))]]))
=============================================================================
