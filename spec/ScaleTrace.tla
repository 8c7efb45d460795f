---------------------------- MODULE ScaleTrace ----------------------------
(* Observed scalings.  Times are <<sign, limbs>> with limbs in base 10000,   *)
(* least significant first, without leading zeros.                           *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
B == 10000
RECURSIVE MulL(_, _, _)
MulL(x, k, carry) ==
  IF x = <<>> THEN (IF carry = 0 THEN <<>> ELSE <<carry % B>> \o MulL(<<>>, k, carry \div B))
  ELSE LET v == Head(x) * k + carry IN <<v % B>> \o MulL(Tail(x), k, v \div B)
MulSmall(x, k) == MulL(x, k, 0)
RECURSIVE Mul10(_, _)
Mul10(x, m) == IF m = 0 THEN x ELSE Mul10(MulSmall(x, 10), m - 1)
RECURSIVE CmpL(_, _)
CmpL(x, y) == \* same length
  IF x = <<>> THEN 0
  ELSE LET i == Len(x) IN IF x[i] # y[i] THEN (IF x[i] < y[i] THEN -1 ELSE 1)
                          ELSE CmpL(SubSeq(x, 1, i - 1), SubSeq(y, 1, i - 1))
Cmp(x, y) == IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1) ELSE CmpL(x, y)
Less(a, b) == IF a.s # b.s THEN a.s < b.s ELSE a.s * Cmp(a.m, b.m) < 0
Back(v, e) == [s |-> v.s, m |-> MulSmall(Mul10(v.m, e.n), e.div)]
Range(s) == {s[i] : i \in DOMAIN s}
Clauses(e) ==
  CASE e.exc # "" -> [ScaleError |-> FALSE]
    [] e.ev = "Scale" ->
        [ SameNumber |-> Len(e.conv) = Len(e.orig),
          Divisor |-> e.n \in 0 .. 9 /\ e.div \in {1, 60, 3600, 86400} /\ (e.div > 1 => e.n = 9),
          Restores |-> Len(e.conv) = Len(e.orig) => \A i \in DOMAIN e.orig : Back(e.conv[i], e) = e.orig[i],
          KeepsOrder |-> Len(e.conv) = Len(e.orig) =>
             \A i \in 1 .. Len(e.orig) - 1 : /\ Less(e.orig[i], e.orig[i + 1]) <=> Less(e.conv[i], e.conv[i + 1])
                                             /\ Less(e.orig[i + 1], e.orig[i]) <=> Less(e.conv[i + 1], e.conv[i]),
          KeepsInput |-> e.kept ]
    [] e.ev = "Times" -> [ InLog |-> Range(e.out) \subseteq Range(e.log), AllThere |-> Range(e.log) \subseteq Range(e.out) ]
    [] OTHER -> [Unexpected |-> FALSE]
Failing(e) == LET cl == Clauses(e) IN {x \in DOMAIN cl : ~cl[x]}
Events == Cases[c].events
Report(f) == \A x \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o x)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = 0
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ l' = l + 1 /\ UNCHANGED <<c, st>>
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
ASSUME MulSmall(<<9999, 9999>>, 60) = <<9940, 9999, 59>> /\ Mul10(<<5>>, 9) = <<0, 0, 50>>
=============================================================================
