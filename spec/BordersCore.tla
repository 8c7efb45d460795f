---------------------------- MODULE BordersCore ----------------------------
(* Emerging itemsets between two collections and their border descriptions.  *)
EXTENDS Itemsets, TLC
\* frequent enough in the second collection, infrequent in the first
Emerging(db1, db2, t1, t2, X) == X # {} /\ Supp(db2, X) >= t2 /\ Supp(db1, X) < t1
\* a border is [left |-> set of itemsets, right |-> itemset]
Described(borders, X) == \E b \in borders : X \subseteq b.right /\ \E e \in b.left : e \subseteq X
StrictlyBetween(borders, X) ==
  \E b \in borders : X \subseteq b.right /\ X # b.right /\ \E e \in b.left : e \subseteq X /\ e # X
Minimal(F) == {X \in F : ~ \E Y \in F : Y \subseteq X /\ Y # X}
Maximal(F) == {X \in F : ~ \E Y \in F : X \subseteq Y /\ Y # X}
FreqIn(db, t, I) == {X \in SUBSET I : X # {} /\ Supp(db, X) >= t}
\* [left, {U}] = subsets of U that are subsets of no member of S
DiffExact(U, S, left) ==
  /\ \A e \in left : e \subseteq U
  /\ \A X \in SUBSET U : (\E e \in left : e \subseteq X) <=> (\A s \in S : ~ (X \subseteq s))

(* ---- the same without enumerating subsets, for wide itemsets ---- *)
RECURSIVE MinTrans(_, _)
\* the minimal subsets of U contained in no member of S
MinTrans(U, S) ==
  IF S = {} THEN {{}}
  ELSE LET s == CHOOSE s \in S : TRUE
       IN Minimal({X \cup {x} : X \in MinTrans(U, S \ {s}), x \in U \ s})
Abs(t) == [kind |-> "abs", num |-> t, den |-> 1]
\* the borders a run has to describe: minimal emerging subsets of each maximal frequent itemset of the second collection
Wanted(db1, db2, t1, t2) ==
  LET M1 == MaximalFrequent(db1, Abs(t1))
  IN {[left |-> MinTrans(M, Maximal({M \cap s : s \in M1} \cup {{}})), right |-> M] : M \in MaximalFrequent(db2, Abs(t2))}
SoundWide(db1, db2, t1, t2, b) ==
  \A x \in b : x.left # {} => /\ Supp(db2, x.right) >= t2
                             /\ \A e \in x.left : e \subseteq x.right => (e # {} /\ Supp(db1, e) < t1)
CompleteWide(db1, db2, t1, t2, b) ==
  \A w \in Wanted(db1, db2, t1, t2) : \A e \in w.left :
     \E x \in b : w.right \subseteq x.right /\ \E y \in x.left : y \subseteq e
DiffWide(U, S, left) ==
  /\ \A e \in left : e \subseteq U /\ \A s \in S : ~ (e \subseteq s)
  /\ \A t \in MinTrans(U, Maximal({U \cap s : s \in S})) : \E e \in left : e \subseteq t
=============================================================================
