------------------------------ MODULE SlimCore ------------------------------
(* Code tables, covers and their two-part description length.               *)
(* A code table is a function from itemsets to the set of transaction       *)
(* numbers (1-based) each of them covers.                                   *)
EXTENDS Itemsets, Log2, FiniteSetsExt

SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)

(* X comes no later than Y in the standard cover order (ties count)         *)
NoLater(db, X, Y) ==
  \/ Cardinality(X) > Cardinality(Y)
  \/ Cardinality(X) = Cardinality(Y) /\ Supp(db, X) >= Supp(db, Y)

(* ---- the greedy cover of a database by an ordered list of itemsets ---- *)
RECURSIVE CoverSeq(_, _)
\* rest: items still uncovered in each transaction
CoverSeq(rest, isets) ==
  IF isets = <<>> THEN <<>>
  ELSE LET X == Head(isets)
           use == {t \in DOMAIN rest : X # {} /\ X \subseteq rest[t]}
           rest2 == [t \in DOMAIN rest |-> IF t \in use THEN rest[t] \ X ELSE rest[t]]
       IN <<use>> \o CoverSeq(rest2, Tail(isets))
Cover(db, isets) ==
  LET u == CoverSeq(db, isets)
  IN [X \in {isets[k] : k \in DOMAIN isets} |-> u[CHOOSE k \in DOMAIN isets : isets[k] = X]]

(* ---- what a valid code table for db is (relational, tie-agnostic) ---- *)
UsedIn(ct, t) == {X \in DOMAIN ct : t \in ct[X]}
Disjoint(ct, t) == \A X, Y \in UsedIn(ct, t) : X # Y => X \cap Y = {}
ExactUnion(db, ct, t) == UNION UsedIn(ct, t) = db[t]
InRange(db, ct) == \A X \in DOMAIN ct : ct[X] \subseteq DOMAIN db
Singletons(ct, alphabet) == \A i \in alphabet : {i} \in DOMAIN ct
CoverOrder(db, ct, t) ==
  LET used == UsedIn(ct, t)
  IN \A X \in DOMAIN ct \ used :
       (X # {} /\ X \subseteq db[t]) => \E Y \in used : Y \cap X # {} /\ NoLater(db, Y, X)
ValidCover(db, ct) ==
  /\ InRange(db, ct)
  /\ \A t \in DOMAIN db : Disjoint(ct, t) /\ ExactUnion(db, ct, t) /\ CoverOrder(db, ct, t)

Reconstruct(ct, n) == [t \in 1 .. n |-> UNION UsedIn(ct, t)]

(* ---- description length, in 1/65536 bit ---- *)
Usage(ct, X) == Cardinality(ct[X])
TotalUsage(ct) == SumOver(DOMAIN ct, LAMBDA X : Usage(ct, X))
Used(ct) == {X \in DOMAIN ct : ct[X] # {}}
Code(ct, X) == Lg(TotalUsage(ct)) - Lg(Usage(ct, X))
DataSize(ct) == LET tot == TotalUsage(ct)
                IN SumOver(Used(ct), LAMBDA X : Usage(ct, X) * (Lg(tot) - Lg(Usage(ct, X))))
ItemTotal(db) == SumOver(DOMAIN db, LAMBDA t : Cardinality(db[t]))
ItemCode(db, i) == Lg(ItemTotal(db)) - Lg(Supp(db, {i}))
ModelSize(db, ct) ==
  LET tot == TotalUsage(ct)
      it == ItemTotal(db)
  IN SumOver(Used(ct), LAMBDA X : (Lg(tot) - Lg(Usage(ct, X)))
                                   + SumOver(X, LAMBDA i : Lg(it) - Lg(Supp(db, {i}))))
TotalSize(db, ct) == DataSize(ct) + ModelSize(db, ct)
StandardTable(db, alphabet) == [X \in {{i} : i \in alphabet} |-> Tids(db, X)]
=============================================================================
