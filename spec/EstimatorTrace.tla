--------------------------- MODULE EstimatorTrace ---------------------------
(* Recorded histories of miners over shared data. st.m: what each miner is:  *)
(* kind, parameters, and steps, the operations its answers may depend on     *)
(* (the last fit and the updates that follow it, "?" when unspecified).      *)
(* shown: whether the patterns were listed since (drawing one requires it).  *)
(* st.ref: answers of fresh miners, recorded beforehand in other processes.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
Unknown == <<"?">>
Of(m) == LET k == CHOOSE i \in DOMAIN st.m : st.m[i].id = m IN st.m[k]
Known(m) == \E i \in DOMAIN st.m : st.m[i].id = m
Set1(m, r) == [i \in DOMAIN st.m |-> IF st.m[i].id = m THEN r ELSE st.m[i]]
\* answers of a fresh miner with these parameters after these steps to this operation
Refs(k, p, s, q) == {i \in DOMAIN st.ref : st.ref[i].kind = k /\ st.ref[i].params = p /\ st.ref[i].steps = s /\ st.ref[i].q = q}
Asked(e, r) == IF e.draws /\ r.shown THEN e.q \o "+" ELSE e.q
Agree(k, p, s, e) ==
  LET R == Refs(k, p, s, Asked(e, Of(e.m))) IN R # {} /\ \A i \in R : st.ref[i].out = e.out /\ st.ref[i].exc = e.exc
Kept(e) == [ KeepsInputs |-> e.changed = <<>>, KeepsSettings |-> e.settings = <<>> ]
StepsAfter(e, r) == IF e.fit THEN <<e.q>> ELSE IF e.step THEN Append(r.steps, e.q) ELSE r.steps
\* operations: fits, updates, uses
OpClauses(e) ==
  LET r == Of(e.m)
  IN IF r.steps = Unknown /\ ~e.fit THEN Kept(e)
     ELSE [ LikeFresh |-> Agree(r.kind, r.params, IF e.fit THEN <<>> ELSE r.steps, e) ] @@ Kept(e)
GetClauses(e) ==
  LET r == Of(e.m)
  IN [ ParamsAsGiven |-> \A k \in DOMAIN r.given : k \in DOMAIN e.got /\ e.got[k] = r.given[k],
       AllParams |-> e.exc = "" /\ \A i \in DOMAIN e.names : e.names[i] \in DOMAIN e.got ] @@ Kept(e)
SetClauses(e) ==
  IF e.unknown THEN [ UnknownRejected |-> e.exc = "ValueError" ] @@ Kept(e) ELSE [ SetAccepted |-> e.exc = "" ] @@ Kept(e)
Clauses(e) ==
  CASE e.ev = "Op" -> OpClauses(e)
    [] e.ev = "Get" -> GetClauses(e)
    [] e.ev = "Set" -> SetClauses(e)
    [] e.ev = "New" -> [ NewError |-> e.exc = "" ] @@ Kept(e)
    [] e.ev = "Copy" -> [ CopyMade |-> e.exc = "", CopySameKind |-> e.same ] @@ Kept(e)
    [] e.ev = "Ref" -> [ RefFresh |-> ~Known(e.m) ]
    [] OTHER -> [Unexpected |-> FALSE]
Failing(e) == LET cl == Clauses(e) IN {n \in DOMAIN cl : ~cl[n]}
After(e) ==
  CASE e.ev = "Ref" -> [st EXCEPT !.ref = Append(@, e)]
    [] e.ev = "New" -> [st EXCEPT !.m = Append(SelectSeq(@, LAMBDA x : x.id # e.m), [id |-> e.m, kind |-> e.kind, params |-> e.params, given |-> e.given, steps |-> <<>>, shown |-> FALSE])]
    [] e.ev = "Set" -> IF e.unknown \/ e.exc # "" THEN st
                       ELSE LET r == Of(e.m)
                            IN [st EXCEPT !.m = Set1(e.m, [r EXCEPT !.params = e.params, !.given = e.given,
                                                           !.steps = IF @ = <<>> THEN <<>> ELSE Unknown])]
    [] e.ev = "Copy" -> IF e.exc # "" THEN st
                        ELSE LET r == Of(e.of)
                             IN [st EXCEPT !.m = Set1(e.m, IF e.full THEN [r EXCEPT !.id = e.m]
                                                                     ELSE [r EXCEPT !.id = e.m, !.steps = <<>>, !.shown = FALSE])]
    [] e.ev = "Op" -> LET r == Of(e.m)
                      IN [st EXCEPT !.m = Set1(e.m, [r EXCEPT !.steps = IF e.exc # "" /\ (e.fit \/ e.step) THEN Unknown
                                                                      ELSE IF e.fit THEN <<e.q>>
                                                                      ELSE IF r.steps = Unknown THEN Unknown
                                                                      ELSE StepsAfter(e, r),
                                                     !.shown = IF e.fit THEN e.shows /\ e.exc = "" ELSE @ \/ (e.shows /\ e.exc = "")])]
    [] OTHER -> st
Events == Cases[c].events
Report(f) == \A n \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o n)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = [m |-> <<>>, ref |-> <<>>]
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ st' = After(Events[l]) /\ l' = l + 1 /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
