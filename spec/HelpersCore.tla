---------------------------- MODULE HelpersCore ----------------------------
(* What the set and array helpers compute.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
MaximalOf(F) == {X \in F : ~ \E Y \in F : X \subseteq Y /\ Y # X}
MinimalOf(F) == {X \in F : ~ \E Y \in F : Y \subseteq X /\ Y # X}
\* graph: adj[v] = set of neighbours
IsClique(adj, K) == \A u, v \in K : u # v => v \in adj[u]
MaximalClique(adj, K) == IsClique(adj, K) /\ K # {} /\ \A w \in DOMAIN adj \ K : ~ (K \subseteq adj[w])
\* the same, grown vertex by vertex: what a clique meets of the neighbours of v, with v, and the cliques v does not extend
RECURSIVE CliquesUpTo(_, _)
CliquesUpTo(adj, k) ==
  IF k = 0 THEN {{}}
  ELSE LET old == CliquesUpTo(adj, k - 1)
           met == {K \cap adj[k] : K \in old}
       IN {K \in old : ~ (K \subseteq adj[k])} \cup {M \cup {k} : M \in {X \in met : ~ \E Y \in met : X \subseteq Y /\ X # Y}}
\* windows of an array given flat, over axes (counted from 1; the same axis may be windowed again)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
\* index of each dimension (from 0) of the flat position p (from 0)
IndexAt(shape, p) == [d \in DOMAIN shape |-> (p \div Prod(SubSeq(shape, d + 1, Len(shape)))) % shape[d]]
RECURSIVE FlatAt(_, _)
FlatAt(shape, ix) == IF shape = <<>> THEN 0 ELSE ix[1] * Prod(Tail(shape)) + FlatAt(Tail(shape), Tail(ix))
RECURSIVE Over(_, _, _)
Over(axes, v, d) == IF axes = <<>> THEN 0 ELSE (IF axes[1] = d THEN v[1] ELSE 0) + Over(Tail(axes), Tail(v), d)
Trimmed(shape, axes, w) == [d \in DOMAIN shape |-> shape[d] - Over(axes, [k \in DOMAIN w |-> w[k] - 1], d)]
WindowAt(shape, flat, axes, w, ix) ==
  LET at == SubSeq(ix, 1, Len(shape)) off == SubSeq(ix, Len(shape) + 1, Len(ix))
  IN flat[1 + FlatAt(shape, [d \in DOMAIN shape |-> at[d] + Over(axes, off, d)])]
\* rows compared lexicographically
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> \/ b = <<>> THEN a = <<>> /\ b # <<>>
             ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Lex(Tail(a), Tail(b))
Rng(s) == {s[i] : i \in DOMAIN s}
CommonRows(A, B) == SetToSortSeq(Rng(A) \cap Rng(B), LAMBDA a, b : Lex(a, b))
FirstAt(A, r) == CHOOSE i \in DOMAIN A : A[i] = r /\ \A j \in 1 .. i - 1 : A[j] # r
=============================================================================
