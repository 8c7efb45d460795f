----------------------------- MODULE TimeScale -----------------------------
(* Automatic time scaling: trailing digits common to all times are dropped   *)
(* one at a time, at most MaxShift of them; when all MaxShift are dropped    *)
(* the largest unit of a ladder that divides every time is used.  Base and   *)
(* the ladder are small stand-ins for 10 and <<60, 3600, 86400>>.            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, TLC
CONSTANTS Half, MaxTimes, Base, MaxShift, U1, U2, U3, EmitCases
VARIABLES orig, conv, n, div, pc
vars == <<orig, conv, n, div, pc>>
ASSUME U2 % U1 = 0 /\ U3 % U2 = 0 /\ Base > 1
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
All(u) == \A i \in DOMAIN conv : conv[i] % u = 0
Init == /\ \E S \in UNION {kSubset(k, -Half .. Half) : k \in 1 .. MaxTimes} : orig = SetToSortSeq(S, <)
        /\ conv = orig /\ n = 0 /\ div = 1 /\ pc = "strip"
Strip == /\ pc = "strip" /\ n < MaxShift /\ All(Base)
         /\ conv' = [i \in DOMAIN conv |-> conv[i] \div Base] /\ n' = n + 1
         /\ UNCHANGED <<orig, div, pc>>
Stop == /\ pc = "strip" /\ ~(n < MaxShift /\ All(Base))
        /\ pc' = IF n = MaxShift THEN "ladder" ELSE "done"
        /\ UNCHANGED <<orig, conv, n, div>>
Ladder == /\ pc = "ladder"
          /\ div' = IF ~All(U1) THEN 1 ELSE IF All(U3) THEN U3 ELSE IF All(U2) THEN U2 ELSE U1
          /\ conv' = [i \in DOMAIN conv |-> conv[i] \div div']
          /\ pc' = "done" /\ UNCHANGED <<orig, n>>
Next == Strip \/ Stop \/ Ladder
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Scale == Pow(Base, n) * div
Exact == \A i \in DOMAIN orig : conv[i] * Scale = orig[i]
Order == \A i, j \in DOMAIN orig : (orig[i] < orig[j]) <=> (conv[i] < conv[j])
Whole == div > 1 => n = MaxShift
Terminates == <>(pc = "done")
\* behaviours: the remainders of the case, laid on real units by the driver
Emit == (EmitCases /\ pc = "done") => PrintT("CASE|" \o ToJson([times |-> orig, n |-> n, div |-> div]))
=============================================================================
