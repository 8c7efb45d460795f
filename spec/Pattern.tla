------------------------------ MODULE Pattern ------------------------------
(* Building pattern trees by the operations the miner uses: start from a    *)
(* cycle, concatenate events or cycles, repeat the whole, factorise.        *)
EXTENDS PatternCore, Json, TLC
CONSTANTS Evs, Rs, Ps, Ds, MaxOps, MaxOccs, EVals, EmitCases
VARIABLES tree, ops
vars == <<tree, ops>>
\* a leaf list under construction has no repetition yet: open |-> TRUE means the root still waits for Repeat
Init == \E e \in Evs, r \in Rs, p \in Ps :
          tree = Cycle(e, r, p) /\ ops = << [op |-> "cycle", e |-> e, r |-> r, p |-> p] >>
Small(t) == NbOccs(t) <= MaxOccs
AddEvent == \E e \in Evs, d \in Ds :
              /\ Small(Add(tree, d, Leaf(e)))
              /\ tree' = Add(tree, d, Leaf(e))
              /\ ops' = Append(ops, [op |-> "append", e |-> e, d |-> d])
AddCycle == \E e \in Evs, r \in Rs, p \in Ps, d \in Ds :
              /\ Small(Add(tree, d, Cycle(e, r, p)))
              /\ tree' = Add(tree, d, Cycle(e, r, p))
              /\ ops' = Append(ops, [op |-> "merge", e |-> e, r |-> r, p |-> p, d |-> d])
\* the same anchored at an inner block
AddInside == \E e \in Evs, d \in Ds, path \in BlockPaths(tree, <<>>) \ {<<>>} :
              /\ Small(AddAt(tree, path, d, Leaf(e)))
              /\ tree' = AddAt(tree, path, d, Leaf(e))
              /\ ops' = Append(ops, [op |-> "append", e |-> e, d |-> d, at |-> path])
Repeat == \E r \in Rs, p \in Ps :
              /\ Small(Wrap(tree, r, p))
              /\ tree' = Wrap(tree, r, p)
              /\ ops' = Append(ops, [op |-> "repeat", r |-> r, p |-> p])
Factor == \E path \in FactorPaths(tree, <<>>) :
              /\ tree' = FactorAt(tree, path)
              /\ ops' = Append(ops, [op |-> "factor", path |-> path])
Next == Len(ops) < MaxOps /\ (AddEvent \/ AddCycle \/ AddInside \/ Repeat \/ Factor)
Spec == Init /\ [][Next]_vars

N == NbOccs(tree)
Es == {f \in [1 .. N -> EVals] : f[1] = 0}
CountExact == Len(Star(tree, 0, <<>>)) = N
KeysDistinct == LET st == Star(tree, 0, <<>>) IN Cardinality({st[i].key : i \in DOMAIN st}) = N
\* accumulated corrections and references describe the same occurrences
RefsAgree == \A E \in Es : AccTimes(tree, 7, E) = Expand(tree, 7, E)
Perfect == LET st == Star(tree, 7, <<>>) IN Expand(tree, 7, Zero(N)) = [i \in DOMAIN st |-> [t |-> st[i].t, ev |-> st[i].ev]]
InverseExact == \A E \in Es :
  LET o == Expand(tree, 7, E) O == [i \in DOMAIN o |-> o[i].t] IN Corrections(tree, O) = E
\* every assignment of times is reached by exactly its corrections
Onto == \A O \in Es : LET C == Corrections(tree, O) x == Expand(tree, O[1], C) IN C[1] = 0 /\ [i \in DOMAIN x |-> x[i].t] = O
FactorKeeps == \A path \in FactorPaths(tree, <<>>) :
  /\ EventBag(Star(FactorAt(tree, path), 0, <<>>)) = EventBag(Star(tree, 0, <<>>))
  /\ NbOccs(FactorAt(tree, path)) = N
\* (action) adding a child or repeating keeps what was there; factorising keeps everything
Grows == [][ LET a == EventBag(Star(tree, 0, <<>>)) b == EventBag(Star(tree', 0, <<>>))
             IN IF Len(ops') > 0 /\ ops'[Len(ops')].op = "factor" THEN a = b ELSE \A x \in DOMAIN a : x \in DOMAIN b /\ a[x] <= b[x] ]_vars
Emit == (EmitCases /\ Len(ops) = MaxOps) => PrintT("CASE|" \o ToJson(ops))
=============================================================================
