------------------------------ MODULE GraphCore ------------------------------
(* Labelled directed graphs, occurrences of patterns in them, what a chosen   *)
(* set of occurrences describes, and the lengths of the description.          *)
(* A graph is [n, lab, edges]: vertices 1..n, a set of labels per vertex, a   *)
(* set of triples <<from, to, label>> (several labels on a pair are a         *)
(* multigraph). A pattern is a graph. An occurrence is a sequence giving the  *)
(* data vertex of each pattern vertex.                                        *)
EXTENDS Log2, FiniteSets, FiniteSetsExt, SequencesExt, TLC
IsOcc(p, f, g) ==
  /\ Len(f) = p.n
  /\ \A v \in 1 .. p.n : f[v] \in 1 .. g.n /\ p.lab[v] \subseteq g.lab[f[v]]
  /\ \A u, v \in 1 .. p.n : u # v => f[u] # f[v]
  /\ \A e \in p.edges : <<f[e[1]], f[e[2]], e[3]>> \in g.edges
\* all the occurrences, extended one vertex at a time, from neighbour to neighbour
Adjacent(p, v, S) == \E e \in p.edges : (e[1] = v /\ e[2] \in S) \/ (e[2] = v /\ e[1] \in S)
RECURSIVE Visit(_, _)
Visit(p, done) ==
  LET D == ToSet(done)
      left == (1 .. p.n) \ D
      near == {v \in left : Adjacent(p, v, D)}
  IN IF left = {} THEN done ELSE Visit(p, Append(done, Min(IF near # {} THEN near ELSE left)))
\* data vertices a pattern vertex may be sent to, given an edge of the pattern to a vertex already placed
Reached(p, h, v, g) ==
  LET es == {e \in p.edges : (e[1] = v /\ e[2] \in DOMAIN h) \/ (e[2] = v /\ e[1] \in DOMAIN h)}
      e == CHOOSE x \in es : TRUE
  IN IF es = {} THEN 1 .. g.n
     ELSE IF e[1] = v THEN {x[1] : x \in {y \in g.edges : y[2] = h[e[2]] /\ y[3] = e[3]}}
     ELSE {x[2] : x \in {y \in g.edges : y[1] = h[e[1]] /\ y[3] = e[3]}}
Fits(p, f, v, g) == /\ p.lab[v] \subseteq g.lab[f[v]]
                    /\ \A e \in p.edges : (e[1] \in DOMAIN f /\ e[2] \in DOMAIN f /\ (e[1] = v \/ e[2] = v))
                                             => <<f[e[1]], f[e[2]], e[3]>> \in g.edges
RECURSIVE Partial(_, _, _, _)
Partial(p, order, k, g) ==
  IF k = 0 THEN {<<>>}
  ELSE LET v == order[k]
       IN {f \in UNION {{[u \in DOMAIN h \cup {v} |-> IF u = v THEN x ELSE h[u]] :
                           x \in Reached(p, h, v, g) \ {h[u] : u \in DOMAIN h}} : h \in Partial(p, order, k - 1, g)} : Fits(p, f, v, g)}
Occs(p, g) == {[v \in 1 .. p.n |-> f[v]] : f \in Partial(p, Visit(p, <<>>), p.n, g)}
\* by definition; an invariant of Graph.tla compares the two
OccsByDef(p, g) == {f \in [1 .. p.n -> 1 .. g.n] : IsOcc(p, f, g)}
EdgeImg(p, f) == {<<f[e[1]], f[e[2]], e[3]>> : e \in p.edges}
LabImg(p, f) == UNION {{<<f[v], a>> : a \in p.lab[v]} : v \in 1 .. p.n}
LabelsOf(g) == UNION {{<<v, a>> : a \in g.lab[v]} : v \in 1 .. g.n}
NodesImg(f) == {f[i] : i \in DOMAIN f}
RECURSIVE Reach(_, _, _)
Reach(p, S, k) == IF k = 0 THEN S
                  ELSE Reach(p, S \cup {e[1] : e \in {x \in p.edges : x[2] \in S}} \cup {e[2] : e \in {x \in p.edges : x[1] \in S}}, k - 1)
Connected(p) == p.n >= 1 /\ Reach(p, {1}, p.n) = 1 .. p.n
Describes(p) == p.edges # {} \/ \E v \in 1 .. p.n : p.lab[v] # {}
EdgesAt(g, v) == {e \in g.edges : e[1] = v \/ e[2] = v}
\* P1 and P2 glued on pairs of vertices; the other vertices of P2, in order, follow those of P1
Glue(P, Q, ports) ==
  LET at(v) == {x[1] : x \in {y \in ports : y[2] = v}}
      free == SetToSortSeq({v \in 1 .. Q.n : at(v) = {}}, LAMBDA a, b : a < b)
      to(v) == IF at(v) # {} THEN CHOOSE x \in at(v) : TRUE ELSE P.n + (CHOOSE i \in DOMAIN free : free[i] = v)
  IN [n |-> P.n + Len(free),
      lab |-> [v \in 1 .. P.n + Len(free) |->
                 (IF v <= P.n THEN P.lab[v] ELSE {}) \cup UNION {Q.lab[w] : w \in {x \in 1 .. Q.n : to(x) = v}}],
      edges |-> P.edges \cup {<<to(e[1]), to(e[2]), e[3]>> : e \in Q.edges}]

---------------------------------------------------------------------------
\* lengths, in 1/65536 bit
Sum(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
SumSeq(s) == FoldSeq(LAMBDA x, acc : acc + x, 0, s)
RECURSIVE FloorLog(_)
FloorLog(k) == IF k <= 1 THEN 0 ELSE 1 + FloorLog(k \div 2)
Elias(k) == BIT * (FloorLog(k) + 2 * FloorLog(FloorLog(k) + 1) + 1)
Universal0(k) == Elias(k + 1)
Upto(a, b, f(_)) == SumSeq([i \in 1 .. (IF b < a THEN 0 ELSE b - a + 1) |-> f(a + i - 1)])
LgBinomial(n, k) == Upto(1, k, LAMBDA i : Lg(n - k + i)) - Upto(1, k, LAMBDA i : Lg(i))
\* plug-in code of a sequence in which symbol i appears s[i] times
Prequential(s) ==
  LET total == SumSeq(s)
  IN Upto(0, total - 1, LAMBDA j : Lg(Len(s) + 2 * j)) - SumSeq([i \in DOMAIN s |-> Upto(0, s[i] - 1, LAMBDA j : Lg(2 * j + 1))])
VCount(g, a) == Cardinality({v \in 1 .. g.n : a \in g.lab[v]})
ECount(g, a) == Cardinality({e \in g.edges : e[3] = a})
VLabels(g) == UNION {g.lab[v] : v \in 1 .. g.n}
ELabels(g) == {e[3] : e \in g.edges}
Total(g) == Cardinality(g.edges) + Sum(1 .. g.n, LAMBDA v : Cardinality(g.lab[v]))
VCode(g, a) == Lg(Total(g)) - Lg(VCount(g, a))
ECode(g, a) == Lg(Total(g)) - Lg(ECount(g, a))
Vocabulary(g) == Cardinality(VLabels(g)) + Cardinality(ELabels(g))
Structure(p, g) ==
  Lg(Vocabulary(g)) + Universal0(p.n)
  + Sum(VLabels(p), LAMBDA a : VCode(g, a) + Universal0(VCount(p, a)) + LgBinomial(p.n, VCount(p, a)))
  + Sum(ELabels(p), LAMBDA a : ECode(g, a) + Universal0(ECount(p, a)) + LgBinomial(p.n * p.n, ECount(p, a)))
RowLength(p, g, nports) == Structure(p, g) + Lg(p.n + 1) + LgBinomial(p.n, nports)
VSingle(a) == [n |-> 1, lab |-> <<{a}>>, edges |-> {}]
ESingle(a) == [n |-> 2, lab |-> <<{}, {}>>, edges |-> {<<1, 2, a>>}]
VSingleLength(g, a) == RowLength(VSingle(a), g, 1)
\* the two ports of an edge singleton cost one bit each in the table
ESingleLength(g, a) == RowLength(ESingle(a), g, 2) + 2 * BIT
=============================================================================
