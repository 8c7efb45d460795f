------------------------------ MODULE Datasets ------------------------------
(* Three small machines behind the datasets: a reader scanning a file symbol *)
(* by symbol, a cache of downloaded files, and the sharing of samples.       *)
EXTENDS DatasetCore, TLC, Json
CONSTANTS Symbols, MaxLen, Files, Homes, MaxFetch, MaxSamples, MaxWeight, MaxClasses, EmitCases
VARIABLES mode, file, pos, item, row, rows, done,      \* reader
          stored, downloads, hist, answers,             \* cache
          n, w, cls, cnt                                \* sharing
vars == <<mode, file, pos, item, row, rows, done, stored, downloads, hist, answers, n, w, cls, cnt>>
NL == "/"   SEP == "_"   BLANK == "."
AllFiles == UNION {[1 .. k -> Symbols] : k \in 0 .. MaxLen}
Weights == UNION {[1 .. k -> 0 .. MaxWeight] : k \in 1 .. MaxClasses}
Rest == /\ pos = 1 /\ item = <<>> /\ row = <<>> /\ rows = <<>> /\ done = FALSE
        /\ stored = [h \in Homes |-> {}] /\ downloads = <<>> /\ hist = <<>> /\ answers = <<>>
        /\ cls = 0 /\ cnt = <<>>
Init == /\ Rest
        /\ \/ mode = "read" /\ file \in {f \in AllFiles : WellFormed(f, NL, SEP, {BLANK})} /\ n = 0 /\ w = <<>>
           \/ mode = "cache" /\ file = <<>> /\ n = 0 /\ w = <<>>
           \/ mode = "share" /\ file = <<>> /\ n \in 0 .. MaxSamples /\ w \in {x \in Weights : SumSeq(x) > 0}
\* ---- reader
EndItem == Append(row, item)
Scan == /\ mode = "read" /\ pos <= Len(file)
        /\ LET s == file[pos]
           IN CASE s = SEP -> row' = EndItem /\ item' = <<>> /\ rows' = rows
                [] s = NL -> rows' = Append(rows, Append(row, StripRight(item, {BLANK}))) /\ row' = <<>> /\ item' = <<>>
                [] OTHER -> item' = Append(item, s) /\ UNCHANGED <<row, rows>>
        /\ pos' = pos + 1
        /\ UNCHANGED <<mode, file, done, stored, downloads, hist, answers, n, w, cls, cnt>>
Finish == /\ mode = "read" /\ pos = Len(file) + 1 /\ ~done
          /\ rows' = IF item = <<>> /\ row = <<>> THEN rows ELSE Append(rows, Append(row, StripRight(item, {BLANK})))
          /\ done' = TRUE
          /\ UNCHANGED <<mode, file, pos, item, row, stored, downloads, hist, answers, n, w, cls, cnt>>
ReadsFile == (mode = "read" /\ done) => rows = RowsOf(file, NL, SEP, {BLANK})
\* ---- cache
\* the connection may fail: the caller is told and nothing is stored, so that a later fetch downloads
Fetch(h, f, ok) ==
               /\ mode = "cache" /\ Len(hist) < MaxFetch
               /\ IF f \in stored[h] \/ ~ok THEN UNCHANGED <<stored, downloads>>
                  ELSE stored' = [stored EXCEPT ![h] = @ \cup {f}] /\ downloads' = Append(downloads, <<h, f>>)
               /\ hist' = Append(hist, [home |-> h, file |-> f, down |-> f \notin stored[h], ok |-> ok])
               /\ answers' = Append(answers, IF f \in stored'[h] THEN f ELSE 0)
               /\ UNCHANGED <<mode, file, pos, item, row, rows, done, n, w, cls, cnt>>
OneDownload == \A i, j \in DOMAIN downloads : i # j => downloads[i] # downloads[j]
SameAnswer == \A i \in DOMAIN hist : answers[i] = IF hist[i].ok \/ ~hist[i].down THEN hist[i].file ELSE 0
\* ---- sharing: one class after the other, up to the nearest bound
Q == SumSeq(w)
Nearest(k) == (2 * Cum(w, k) * n + Q) \div (2 * Q)
Give == /\ mode = "share" /\ cls < Len(w)
        /\ cnt' = Append(cnt, Nearest(cls + 1) - Nearest(cls)) /\ cls' = cls + 1
        /\ UNCHANGED <<mode, file, pos, item, row, rows, done, stored, downloads, hist, answers, n, w>>
Shared == (mode = "share" /\ cls = Len(w)) => FairShare(cnt, w, Q, n)
Next == Scan \/ Finish \/ (\E h \in Homes, f \in Files, ok \in BOOLEAN : Fetch(h, f, ok)) \/ Give
Spec == Init /\ [][Next]_vars /\ WF_vars(Scan \/ Finish \/ Give)
Ends == (mode = "read" ~> mode = "read" /\ done) /\ (mode = "share" ~> mode = "share" /\ cls = Len(w))
\* the file end without line break was modelled: a last line is a line
Emit == /\ (EmitCases /\ mode = "read" /\ done /\ rows # <<>>) => PrintT("CASE|" \o ToJson([k |-> "file", file |-> file]))
        /\ (EmitCases /\ mode = "cache" /\ Len(hist) = MaxFetch) => PrintT("CASE|" \o ToJson([k |-> "cache", hist |-> hist]))
        /\ (EmitCases /\ mode = "share" /\ cls = Len(w) /\ cls > 0) => PrintT("CASE|" \o ToJson([k |-> "share", n |-> n, w |-> w]))
=============================================================================
