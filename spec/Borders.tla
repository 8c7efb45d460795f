------------------------------ MODULE Borders ------------------------------
(* MBD-LLBorder as a state machine: one right-border itemset of the second   *)
(* collection at a time; for each, BORDER-DIFF one step per maximal          *)
(* intersection with the first collection's right border.                    *)
EXTENDS BordersCore, Json, FiniteSetsExt
CONSTANTS NItems, N1, N2, T1, T2, EmitCases
VARIABLES db1, db2, todo, cur, left, rest, borders
vars == <<db1, db2, todo, cur, left, rest, borders>>
I == 1 .. NItems
NONE == {}
Right1 == Maximal(FreqIn(db1, T1, I))
Right2 == Maximal(FreqIn(db2, T2, I))
Init == /\ db1 \in [1 .. N1 -> SUBSET I] /\ db2 \in [1 .. N2 -> SUBSET I]
        /\ todo = Right2 /\ cur = NONE /\ left = {} /\ rest = {} /\ borders = {}
Skip(U) == /\ cur = NONE /\ U \in todo /\ (\E e \in Right1 : U \subseteq e)
           /\ todo' = todo \ {U} /\ UNCHANGED <<db1, db2, cur, left, rest, borders>>
Start(U) == /\ cur = NONE /\ U \in todo /\ ~ (\E e \in Right1 : U \subseteq e)
            /\ LET R == Maximal({U \cap e : e \in Right1})
                   R0 == IF R = {} THEN {{}} ELSE R
                   S == CHOOSE s \in R0 : TRUE
               IN left' = {{x} : x \in U \ S} /\ rest' = R0 \ {S}
            /\ cur' = U /\ todo' = todo \ {U} /\ UNCHANGED <<db1, db2, borders>>
Step(S) == /\ cur # NONE /\ S \in rest
           /\ left' = Minimal({X \cup {x} : X \in left, x \in cur \ S})
           /\ rest' = rest \ {S} /\ UNCHANGED <<db1, db2, todo, cur, borders>>
Finish == /\ cur # NONE /\ rest = {}
          /\ borders' = borders \cup {[left |-> left, right |-> cur]}
          /\ cur' = NONE /\ left' = {} /\ UNCHANGED <<db1, db2, todo, rest>>
Next == (\E U \in todo : Skip(U) \/ Start(U)) \/ (\E S \in rest : Step(S)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == todo = {} /\ cur = NONE
Sound == \A X \in SUBSET I : Described(borders, X) => Emerging(db1, db2, T1, T2, X)
Complete == Done => \A X \in SUBSET I : Emerging(db1, db2, T1, T2, X) => Described(borders, X)
\* the tests for wide itemsets agree with the definitions
WideAgrees == Done =>
  /\ SoundWide(db1, db2, T1, T2, borders) /\ CompleteWide(db1, db2, T1, T2, borders)
  /\ \A X \in SUBSET I : Emerging(db1, db2, T1, T2, X) <=> Described(Wanted(db1, db2, T1, T2), X)
  /\ \A b \in borders : DiffExact(b.right, Right1 \cup {{}}, b.left) /\ DiffWide(b.right, Right1 \cup {{}}, b.left)
LeftMinimal == \A b \in borders : b.left # {} /\ Minimal(b.left) = b.left
Emit == (EmitCases /\ Done) => PrintT("CASE|" \o ToJson([db1 |-> db1, db2 |-> db2, t1 |-> T1, t2 |-> T2]))
Terminates == <>Done
=============================================================================
