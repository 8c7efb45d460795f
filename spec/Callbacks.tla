------------------------------ MODULE Callbacks ------------------------------
(* Attaching collections of callbacks to miners. Attaching wraps the method  *)
(* of that miner once more; a call runs the method, then unwinds the         *)
(* wrappers from the innermost, each running its callback on the result; an  *)
(* error of the method or of a callback goes up through the wrappers left.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Miners, Methods, Forms, Results, MaxOps, EmitCases
VARIABLES slot, run, log, hist, want, ncb
vars == <<slot, run, log, hist, want, ncb>>
\* a callback is <<number, form>>; the forms say what it asks for; "boom" fails when it runs
None == <<>>
Init == /\ slot = [m \in Miners |-> [f \in Methods |-> <<>>]]
        /\ run = None /\ log = <<>> /\ hist = <<>> /\ want = <<>> /\ ncb = 0
Attach(m, C) ==       \* C: method -> form, on some of the methods
  /\ run = None /\ Len(hist) < MaxOps
  /\ LET names == {f \in Methods : C[f] # "no"}
         order == CHOOSE s \in [1 .. Cardinality(names) -> names] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
         num(f) == ncb + (CHOOSE i \in DOMAIN order : order[i] = f)
     IN /\ names # {}
        /\ slot' = [slot EXCEPT ![m] = [f \in Methods |-> IF f \in names THEN Append(@[f], <<num(f), C[f]>>) ELSE @[f]]]
        /\ ncb' = ncb + Cardinality(names)
        /\ hist' = Append(hist, [op |-> "attach", m |-> m, cbs |-> [i \in DOMAIN order |-> <<order[i], C[order[i]]>>]])
  /\ UNCHANGED <<run, log, want>>
\* a collection naming a method the miner does not have, next to one it has
AttachUnknown(m, f, F) ==
  /\ run = None /\ Len(hist) < MaxOps
  /\ hist' = Append(hist, [op |-> "unknown", m |-> m, cbs |-> <<<<f, F>>>>])
  /\ UNCHANGED <<slot, run, log, want, ncb>>
Call(m, f, r) ==
  /\ run = None /\ Len(hist) < MaxOps
  /\ run' = [m |-> m, f |-> f, r |-> r, depth |-> 0, ok |-> r # "raise", at |-> Len(log)]
  /\ hist' = Append(hist, [op |-> "call", m |-> m, f |-> f, r |-> r])
  /\ UNCHANGED <<slot, log, want, ncb>>
Unwind ==
  /\ run # None /\ run.depth < Len(slot[run.m][run.f])
  /\ LET cb == slot[run.m][run.f][run.depth + 1]
     IN /\ log' = IF run.ok THEN Append(log, <<cb[1], run.m, run.r>>) ELSE log
        /\ run' = [run EXCEPT !.depth = @ + 1, !.ok = @ /\ cb[2] # "boom"]
  /\ UNCHANGED <<slot, hist, want, ncb>>
Return ==
  /\ run # None /\ run.depth = Len(slot[run.m][run.f])
  /\ want' = Append(want, [ran |-> SubSeq(log, run.at + 1, Len(log)), ok |-> run.ok])
  /\ run' = None /\ UNCHANGED <<slot, log, hist, ncb>>
Next == \/ \E m \in Miners : \E C \in [Methods -> Forms \cup {"no"}] : Attach(m, C)
        \/ \E m \in Miners, f \in Methods, F \in Forms : AttachUnknown(m, f, F)
        \/ \E m \in Miners, f \in Methods, r \in Results : Call(m, f, r)
        \/ Unwind \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Unwind \/ Return)
---------------------------------------------------------------------------
\* what a history of calls must have run, said without wrappers
RECURSIVE AttachedBefore(_, _, _, _, _)
AttachedBefore(k, m, f, n, acc) ==      \* callbacks on m.f after the first k operations; n: callbacks numbered so far
  IF k = 0 THEN <<>>
  ELSE LET S == [i \in 1 .. k |-> IF hist[i].op = "attach" THEN Len(hist[i].cbs) ELSE 0]
           RECURSIVE Before(_)
           Before(i) == IF i = 0 THEN 0 ELSE S[i] + Before(i - 1)
           RECURSIVE Go(_)
           Go(i) == IF i > k THEN <<>>
                    ELSE (IF hist[i].op = "attach" /\ hist[i].m = m
                          THEN LET hits == {j \in DOMAIN hist[i].cbs : hist[i].cbs[j][1] = f}
                               IN IF hits = {} THEN <<>> ELSE LET j == CHOOSE x \in hits : TRUE IN <<<<Before(i - 1) + j, hist[i].cbs[j][2]>>>>
                          ELSE <<>>) \o Go(i + 1)
       IN Go(1)
CallsAt == SelectSeq([i \in DOMAIN hist |-> i], LAMBDA i : hist[i].op = "call")
RunsOnce == \A q \in DOMAIN want :
   LET i == CallsAt[q]
       cbs == AttachedBefore(i - 1, hist[i].m, hist[i].f, 0, <<>>)
       boom == {k \in DOMAIN cbs : cbs[k][2] = "boom"}
       upto == IF hist[i].r = "raise" THEN 0 ELSE IF boom = {} THEN Len(cbs) ELSE CHOOSE k \in boom : \A j \in boom : k <= j
   IN /\ want[q].ran = [k \in 1 .. upto |-> <<cbs[k][1], hist[i].m, hist[i].r>>]
      /\ want[q].ok = (hist[i].r # "raise" /\ boom = {})
Returns == run # None ~> run = None
Emit == (EmitCases /\ run = None /\ Len(hist) = MaxOps /\ \E i \in DOMAIN hist : hist[i].op = "call") => PrintT("CASE|" \o ToJson(hist))
=============================================================================
