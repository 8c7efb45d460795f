----------------------------- MODULE Estimators -----------------------------
(* Miners as objects: parameters, fitted attributes, and histories of        *)
(* fitting, using and setting parameters over shared data. Fitting forgets   *)
(* every attribute, ingests the data, then searches; it may fail at either   *)
(* stage. A copy is as fitted as its original or not fitted. Using reads     *)
(* the attributes. The answer of a use depends only on the parameters and    *)
(* the data of the last fit, and on what is asked.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Miners, Data, Bad, Params, Uses, MaxOps, EmitCases
VARIABLES par, attr, stage, data, out, hist, ref
vars == <<par, attr, stage, data, out, hist, ref>>
None == <<>>
Idle == <<>>
Init == /\ par \in [Miners -> Params]
        /\ attr = [m \in Miners |-> None]
        /\ stage = Idle /\ out = None /\ hist = <<[op |-> "new", par |-> par]>>
        /\ data = [d \in Data \cup Bad |-> <<"value", d>>]
        /\ ref = [m \in Miners |-> None]
Room == stage = Idle /\ Len(hist) < MaxOps + 1
Fit(m, d) == /\ Room
             /\ stage' = [m |-> m, d |-> d, at |-> "ingest"]
             /\ attr' = [attr EXCEPT ![m] = None]
             /\ hist' = Append(hist, [op |-> "fit", m |-> m, d |-> d])
             /\ ref' = [ref EXCEPT ![m] = IF d \in Bad THEN <<"unknown">> ELSE <<"fit", par[m], d>>]
             /\ UNCHANGED <<par, data, out>>
Ingest == /\ stage # Idle /\ stage.at = "ingest"
          /\ attr' = [attr EXCEPT ![stage.m] = [index |-> data[stage.d], p |-> par[stage.m], model |-> None]]
          /\ stage' = IF stage.d \in Bad THEN Idle ELSE [stage EXCEPT !.at = "search"]
          /\ UNCHANGED <<par, data, out, hist, ref>>
Search == /\ stage # Idle /\ stage.at = "search"
          /\ attr' = [attr EXCEPT ![stage.m].model = <<"model", attr[stage.m].index, attr[stage.m].p>>]
          /\ stage' = Idle
          /\ UNCHANGED <<par, data, out, hist, ref>>
Use(m, u, d) == /\ Room /\ d \in Data
                /\ out' = [m |-> m, ans |-> IF attr[m] = None THEN <<"not fitted">> ELSE <<u, attr[m].model, data[d]>>, u |-> u, d |-> d]
                /\ hist' = Append(hist, [op |-> "use", m |-> m, u |-> u, d |-> d])
                /\ UNCHANGED <<par, attr, stage, data, ref>>
Set(m, p) == /\ Room /\ p # par[m]
             /\ par' = [par EXCEPT ![m] = p]
             /\ ref' = [ref EXCEPT ![m] = IF @ = None THEN None ELSE <<"unknown">>]
             /\ hist' = Append(hist, [op |-> "set", m |-> m, p |-> p])
             /\ UNCHANGED <<attr, stage, data, out>>
SetUnknown(m) == /\ Room /\ hist' = Append(hist, [op |-> "setbad", m |-> m]) /\ UNCHANGED <<par, attr, stage, data, out, ref>>
Get(m) == /\ Room /\ hist' = Append(hist, [op |-> "get", m |-> m]) /\ UNCHANGED <<par, attr, stage, data, out, ref>>
\* n becomes a copy of m, fitted alike or not fitted
Copy(m, n, full) == /\ Room /\ m # n
                    /\ par' = [par EXCEPT ![n] = par[m]]
                    /\ attr' = [attr EXCEPT ![n] = IF full THEN attr[m] ELSE None]
                    /\ ref' = [ref EXCEPT ![n] = IF full THEN ref[m] ELSE None]
                    /\ hist' = Append(hist, [op |-> "copy", m |-> n, of |-> m, full |-> full])
                    /\ UNCHANGED <<stage, data, out>>
Next == \/ \E m \in Miners, d \in Data \cup Bad : Fit(m, d)
        \/ Ingest \/ Search
        \/ \E m \in Miners, u \in Uses, d \in Data : Use(m, u, d)
        \/ \E m \in Miners, p \in Params : Set(m, p)
        \/ \E m, n \in Miners, full \in BOOLEAN : Copy(m, n, full)
        \/ \E m \in Miners : SetUnknown(m) \/ Get(m)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* the reference: a miner created with the same parameters and fitted once
AsFresh(m, u, d) == IF ref[m] = None THEN <<"not fitted">>
                    ELSE <<u, <<"model", <<"value", ref[m][3]>>, ref[m][2]>>, <<"value", d>>>>
Last == hist[Len(hist)]
LikeFresh == (Last.op = "use" /\ stage = Idle /\ ref[Last.m] # <<"unknown">>) => out.ans = AsFresh(out.m, out.u, out.d)
\* a copy has the parameters of its original, and its fitted attributes or none
CopyAlike == (Last.op = "copy" /\ stage = Idle) => par[Last.m] = par[Last.of] /\ attr[Last.m] = IF Last.full THEN attr[Last.of] ELSE None
DataKept == \A d \in Data \cup Bad : data[d] = <<"value", d>>
\* an operation on one miner leaves the others as they are
Independent == [][\A m \in Miners : (attr'[m] # attr[m] \/ par'[m] # par[m]) =>
                    \/ (stage # Idle /\ stage.m = m)
                    \/ (Len(hist') > Len(hist) /\ "m" \in DOMAIN hist'[Len(hist')] /\ hist'[Len(hist')].m = m)]_vars
Emit == (EmitCases /\ stage = Idle /\ Len(hist) = MaxOps + 1 /\ Last.op \in {"use", "get"}
         /\ \E i \in DOMAIN hist : hist[i].op = "fit") => PrintT("CASE|" \o ToJson(hist))
=============================================================================
