-------------------------------- MODULE Mdlp --------------------------------
(* The discretiser as a worklist machine on a sorted label sequence.         *)
EXTENDS MdlpCore, TLC, Json
CONSTANTS MaxN, NLab
VARIABLES y, work, closed, cuts
vars == <<y, work, closed, cuts>>
Init == /\ y \in UNION {[1 .. n -> 1 .. NLab] : n \in 1 .. MaxN}
        /\ work = {<<0, Len(y)>>} /\ closed = {} /\ cuts = {}
Split(w, k) == /\ k \in Best(y, w[1], w[2]) /\ MayAccept(y, w[1], w[2], k)
               /\ work' = (work \ {w}) \cup {<<w[1], k>>, <<k, w[2]>>}
               /\ cuts' = cuts \cup {k} /\ UNCHANGED <<y, closed>>
Close(w) == /\ \/ Boundary(y, w[1], w[2]) = {}
               \/ \E k \in Best(y, w[1], w[2]) : MayReject(y, w[1], w[2], k)
            /\ work' = work \ {w} /\ closed' = closed \cup {w} /\ UNCHANGED <<y, cuts>>
Next == \E w \in work : Close(w) \/ (Boundary(y, w[1], w[2]) # {} /\ \E k \in Best(y, w[1], w[2]) : Split(w, k))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ASSUME LogSane
\* open and closed intervals always tile the sequence, delimited by the cuts
Tiling == LET I == work \cup closed
          IN /\ \A w \in I : w[1] < w[2] /\ (w[1] = 0 \/ w[1] \in cuts) /\ (w[2] = Len(y) \/ w[2] \in cuts)
             /\ \A i \in 1 .. Len(y) : Cardinality({w \in I : w[1] < i /\ i <= w[2]}) = 1
LabelChange == \A k \in cuts : y[k] # y[k + 1]
Final == work = {} => cuts \in Outcomes(y, 0, Len(y))
\* the membership test agrees with the enumeration
AdmitsSame == (work = {<<0, Len(y)>>} /\ closed = {}) =>
                {C \in SUBSET (1 .. Len(y) - 1) : Admits(y, 0, Len(y), C)} = Outcomes(y, 0, Len(y))
\* looking only where the label changes loses nothing (Fayyad & Irani, theorem 1)
Theorem1 == \A w \in work : LET s == w[1] e == w[2] IN
              (Boundary(y, s, e) # {}) =>
                 LET m == Min({SplitEnt(y, s, e, k) : k \in s + 1 .. e - 1})
                 IN \E k \in Best(y, s, e) : SplitEnt(y, s, e, k) <= m + Slack(s, e)
EntropySane == \A w \in work : NEnt(y, w[1], w[2]) >= -Slack(w[1], w[2])
Emit == (work = {<<0, Len(y)>>} /\ closed = {}) => PrintT("CASE|" \o ToJson([y |-> y]))
Terminates == <>(work = {})
=============================================================================
