---------------------------- MODULE CallbackTrace ----------------------------
(* Recorded histories of attaching callbacks and calling methods. st.att is  *)
(* the sequence of callbacks [id, form] attached to each miner and method.   *)
(* What a callback receives is a sequence of texts: the miner's name, the    *)
(* text of the result, or of its parts.                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
Attached(m, f) == SelectSeq(st.att, LAMBDA a : a.m = m /\ a.f = f)
\* what a callback of a given form must receive
Given(form, m, e) ==
  CASE form \in {"one", "append", "default", "onedef", "boom", "deque"} -> <<e.text>>
    [] form = "self1" -> <<m>>
    [] form \in {"self2", "selfdef", "selfopt"} -> <<m, e.text>>
    [] form = "selfN" -> <<m>> \o e.parts
    [] form \in {"multi", "var", "extend"} -> e.parts
    [] OTHER -> <<"?">>
CallClauses(e) ==
  LET cbs == Attached(e.m, e.f)
      bad == {k \in DOMAIN cbs : cbs[k].fails # ""}
      upto == IF e.raises # "" THEN 0 ELSE IF bad = {} THEN Len(cbs) ELSE CHOOSE k \in bad : \A j \in bad : k <= j
      ran == [k \in 1 .. upto |-> cbs[k].id]
      mine == [k \in DOMAIN e.ran |-> e.ran[k].id]
  IN [ RunsOnce |-> /\ Len(mine) = upto
                    /\ \A k \in 1 .. upto : Cardinality({j \in DOMAIN mine : mine[j] = ran[k]}) = 1,
       InOrder |-> \A i, j \in DOMAIN mine : \A a, b \in 1 .. upto :
                      (i < j /\ mine[i] = ran[a] /\ mine[j] = ran[b]) => a <= b,
       Receives |-> \A j \in DOMAIN e.ran : \A k \in 1 .. upto :
                      cbs[k].id = e.ran[j].id => e.ran[j].got = Given(cbs[k].form, e.m, e),
       BodyOnce |-> e.body = 1,
       SameResult |-> (e.raises = "" /\ bad = {}) => e.exc = "" /\ e.same,
       SameError |-> /\ e.raises # "" => e.exc = e.raises /\ e.same
                     /\ (e.raises = "" /\ bad # {}) => e.exc = cbs[upto].fails ]
\* building a collection: refused exactly for values that cannot be called or that assign to the miner
BuildClauses(e) == [ Verdict |-> e.exc = e.want ]
AttachClauses(e) ==
  IF e.want # "" THEN [ Refused |-> e.exc = e.want, Untouched |-> ~e.changed ]
  ELSE [ Accepted |-> e.exc = "" ]
FrozenClauses(e) == [ Frozen |-> e.exc # "", Kept |-> ~e.changed ]
\* a real miner with callbacks against one without
MinerClauses(e) == [ NoError |-> e.exc = "", SameOutcome |-> e.same, OncePerCall |-> e.calls = e.runs, ReceivedResult |-> e.got ]
Clauses(e) ==
  CASE e.ev = "Call" -> CallClauses(e)
    [] e.ev = "Build" -> BuildClauses(e)
    [] e.ev = "Attach" -> AttachClauses(e)
    [] e.ev = "Frozen" -> FrozenClauses(e)
    [] e.ev = "Miner" -> MinerClauses(e)
    [] OTHER -> [Unexpected |-> FALSE]
Failing(e) == LET cl == Clauses(e) IN {n \in DOMAIN cl : ~cl[n]}
After(e) == IF e.ev = "Attach" /\ e.want = "" /\ e.exc = "" THEN [att |-> st.att \o e.cbs] ELSE st
Events == Cases[c].events
Report(f) == \A n \in f : PrintT("FAIL|" \o ToString(c) \o "|" \o ToString(l) \o "|" \o n)
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ st = [att |-> <<>>]
TraceNext == /\ l <= Len(Events)
             /\ Report(Failing(Events[l]))
             /\ st' = After(Events[l]) /\ l' = l + 1 /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
