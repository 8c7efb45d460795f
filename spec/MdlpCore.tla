------------------------------ MODULE MdlpCore ------------------------------
(* Recursive minimum-entropy partition of a label sequence with the MDL      *)
(* acceptance test (Fayyad & Irani 1993), in exact integers: entropies are   *)
(* multiplied by the interval length and scaled by 1/65536 bit.              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Log2

(* interval (s, e] of positions of the label sequence y *)
Cnt(y, s, e, v) == Cardinality({i \in s + 1 .. e : y[i] = v})
Lab(y, s, e) == {y[i] : i \in s + 1 .. e}
NEnt(y, s, e) ==
  LET n == e - s
  IN n * Lg(n) - FoldSet(LAMBDA v, acc : LET k == Cnt(y, s, e, v) IN acc + k * Lg(k), 0, Lab(y, s, e))
\* bound on the rounding of the table in the sums below
Slack(s, e) == 6 * (e - s) + 20
Boundary(y, s, e) == {k \in s + 1 .. e - 1 : y[k] # y[k + 1]}
SplitEnt(y, s, e, k) == NEnt(y, s, k) + NEnt(y, k, e)
\* the cuts of least entropy (all that tie)
Best(y, s, e) ==
  LET B == Boundary(y, s, e)
      E == [k \in B |-> SplitEnt(y, s, e, k)]
      m == Min({E[k] : k \in B})
  IN {k \in B : E[k] <= m + Slack(s, e)}
\* log2(3^k - 2) for k = 1..12, checked against the table where it reaches
LgPow3Tab == <<0, 183983, 304340, 413125, 518579, 622973, 727018, 830948, 934839, 1038718, 1142592, 1246465>>
Pow3 == <<3, 9, 27, 81, 243, 729>>
\* beyond that the 2 is lost in the rounding; log2(3) is 103872.102 units
LgPow3(k) == IF k <= 12 THEN LgPow3Tab[k] ELSE (k * 1038721) \div 10
ASSUME \A k \in 1 .. 6 : LgPow3(k) = Lg(Pow3[k] - 2)
ASSUME \A k \in 7 .. 200 : LgPow3(k) - LgPow3(k - 1) - Lg(3) \in -1 .. 300
\* length of the interval times (gain minus threshold); the split is accepted iff positive
Margin(y, s, e, k) ==
  LET n == e - s
      h0 == NEnt(y, s, e) h1 == NEnt(y, s, k) h2 == NEnt(y, k, e)
      k0 == Cardinality(Lab(y, s, e)) k1 == Cardinality(Lab(y, s, k)) k2 == Cardinality(Lab(y, k, e))
  IN h0 - h1 - h2 - Lg(n - 1) - LgPow3(k0)
     + k0 * (h0 \div n) - k1 * (h1 \div (k - s)) - k2 * (h2 \div (e - k))
MayAccept(y, s, e, k) == Margin(y, s, e, k) > -Slack(s, e)
MayReject(y, s, e, k) == Margin(y, s, e, k) < Slack(s, e)

(* all partitions the procedure may end with (more than one only on ties)    *)
RECURSIVE Outcomes(_, _, _)
Outcomes(y, s, e) ==
  IF Boundary(y, s, e) = {} THEN {{}}
  ELSE UNION { (IF MayAccept(y, s, e, k)
                THEN {a \cup b \cup {k} : a \in Outcomes(y, s, k), b \in Outcomes(y, k, e)} ELSE {})
               \cup (IF MayReject(y, s, e, k) THEN {{}} ELSE {}) : k \in Best(y, s, e) }
\* the same as a test of one set of cuts (no enumeration, for long sequences)
RECURSIVE Admits(_, _, _, _)
Admits(y, s, e, C) ==
  LET D == {k \in C : s < k /\ k < e}
  IN IF Boundary(y, s, e) = {} THEN D = {}
     ELSE LET B == Best(y, s, e)
          IN IF D = {} THEN \E k \in B : MayReject(y, s, e, k)
             ELSE \E k \in B \cap D : MayAccept(y, s, e, k) /\ Admits(y, s, k, C) /\ Admits(y, k, e, C)
=============================================================================
