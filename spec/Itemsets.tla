------------------------------ MODULE Itemsets ------------------------------
(* Vocabulary of transactional databases, shared by all itemset miners.     *)
(* A database is a sequence of finite sets of items.                        *)
EXTENDS Integers, Sequences, FiniteSets

Items(db) == UNION {db[i] : i \in DOMAIN db}
Tids(db, X) == {i \in DOMAIN db : X \subseteq db[i]}
Supp(db, X) == Cardinality(Tids(db, X))

(* A threshold is a rational num/den: absolute s is <<s, 1>> (kind "abs"),  *)
(* relative p/q of n transactions is the bound p*n/q.                       *)
Reaches(s, n, thr) == IF thr.kind = "abs" THEN s * thr.den >= thr.num
                                          ELSE s * thr.den >= thr.num * n
Frequent(db, X, thr) == Reaches(Supp(db, X), Len(db), thr)

(* the largest set of frequent items occurring in all transactions of X     *)
Closure(db, X) == {i \in Items(db) : Tids(db, X) \subseteq Tids(db, {i})}

(* -------- declarative definitions (exponential) -------- *)
ClosedFrequentDef(db, thr) ==
  {X \in SUBSET Items(db) \ {{}} :
      /\ Frequent(db, X, thr)
      /\ \A i \in Items(db) \ X : Supp(db, X \cup {i}) < Supp(db, X)}
MaximalFrequentDef(db, thr) ==
  {X \in SUBSET Items(db) \ {{}} :
      /\ Frequent(db, X, thr)
      /\ \A i \in Items(db) \ X : ~Frequent(db, X \cup {i}, thr)}

(* -------- the same, as a closure fixpoint (usable on recorded runs) ----- *)
RECURSIVE Grow(_, _, _, _)
Grow(db, thr, done, front) ==
  IF front = {} THEN done
  ELSE LET new == UNION {{Closure(db, C \cup {i}) : i \in {j \in Items(db) \ C : Frequent(db, C \cup {j}, thr)}} : C \in front}
           d2 == done \cup front
       IN Grow(db, thr, d2, new \ d2)
ClosedFrequent(db, thr) ==
  LET bottom == Closure(db, {})
  IN IF Frequent(db, {}, thr) THEN Grow(db, thr, {}, {bottom}) \ {{}} ELSE {}
MaximalOf(fam) == {X \in fam : ~\E Y \in fam : X # Y /\ X \subseteq Y}
MinimalOf(fam) == {X \in fam : ~\E Y \in fam : X # Y /\ Y \subseteq X}
\* when one transaction suffices, the maximal ones are the itemsets; otherwise the maximal ones of the closed
MaximalFrequent(db, thr) == IF Reaches(1, Len(db), thr) /\ ~Reaches(0, Len(db), thr) THEN MaximalOf({db[i] : i \in DOMAIN db} \ {{}})
                            ELSE MaximalOf(ClosedFrequent(db, thr))

FixpointAgrees(db, thr) ==
  /\ ClosedFrequent(db, thr) = ClosedFrequentDef(db, thr)
  /\ MaximalFrequent(db, thr) = MaximalFrequentDef(db, thr)
=============================================================================
