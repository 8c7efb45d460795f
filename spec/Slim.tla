-------------------------------- MODULE Slim --------------------------------
(* SLIM as a state machine: start from the singleton table, then            *)
(*  Accept(X)  fitting: insert X, optionally prune, only if strictly shorter *)
(*  Insert(X)  interactive insertion of any itemset, whatever the gain       *)
(*  Drop(Y)    pruning: remove a table entry if strictly shorter             *)
(*  Refit(d)   start again on other data                                     *)
EXTENDS SlimCore, TLC, Json, SequencesExt
CONSTANTS NItems, NTrans, MaxSteps, Interactive, EmitCases
VARIABLES db, ct, hist
vars == <<db, ct, hist>>
I == 1 .. NItems
NonEmptyDbs == {d \in [1 .. NTrans -> SUBSET I] : Items(d) # {}}

\* one linear extension of the standard cover order
Order(d, S) == SetToSortSeq(S, LAMBDA X, Y :
                  \/ Cardinality(X) > Cardinality(Y)
                  \/ /\ Cardinality(X) = Cardinality(Y)
                     /\ \/ Supp(d, X) > Supp(d, Y)
                        \/ Supp(d, X) = Supp(d, Y) /\ X # Y /\ Max(SymDiff(X, Y)) \in X)
Recover(S) == Cover(db, Order(db, S))

Init == db \in NonEmptyDbs /\ ct = StandardTable(db, Items(db)) /\ hist = <<>>

Room == Len(hist) < MaxSteps
Cands == {X \in SUBSET Items(db) : X # {}}
Accept(X) ==
  /\ Room /\ X \notin DOMAIN ct
  /\ LET new == Recover(DOMAIN ct \cup {X})
     IN /\ TotalSize(db, new) < TotalSize(db, ct)
        /\ ct' = new
  /\ hist' = Append(hist, [op |-> "accept", x |-> X])
  /\ UNCHANGED db
Drop(Y) ==
  /\ Room /\ Cardinality(Y) > 1
  /\ LET new == Recover(DOMAIN ct \ {Y})
     IN /\ TotalSize(db, new) < TotalSize(db, ct)
        /\ ct' = new
  /\ hist' = Append(hist, [op |-> "drop", x |-> Y])
  /\ UNCHANGED db
Insert(X) ==
  /\ Interactive /\ Room
  /\ ct' = Recover(DOMAIN ct \cup {X})
  /\ hist' = Append(hist, [op |-> "insert", x |-> X])
  /\ UNCHANGED db
Next == \/ \E X \in Cands : Accept(X) \/ Insert(X)
        \/ \E Y \in DOMAIN ct : Drop(Y)
Spec == Init /\ [][Next]_vars

ASSUME LogSane
Lossless == Reconstruct(ct, NTrans) = db
Valid == ValidCover(db, ct)
KeepSingletons == Singletons(ct, Items(db))
\* sizes are sane: never negative, and the data part is the sum over transactions of the codes of their covers
SizesSane == /\ DataSize(ct) >= 0 /\ ModelSize(db, ct) >= 0
             /\ DataSize(ct) = SumOver(DOMAIN db, LAMBDA t : SumOver(UsedIn(ct, t), LAMBDA X : Code(ct, X)))
NeverWorse == (~Interactive) => TotalSize(db, ct) <= TotalSize(db, StandardTable(db, Items(db)))
Decreasing == [][(\E X \in Cands : Accept(X)) \/ (\E Y \in DOMAIN ct : Drop(Y)) => TotalSize(db, ct') < TotalSize(db, ct)]_vars
Emit == (EmitCases /\ Len(hist) = MaxSteps) =>
          PrintT("CASE|" \o ToJson([db |-> db, hist |-> hist]))
=============================================================================
