----------------------------- MODULE RobustTrace ----------------------------
(* Every input has a result: the conversion of a document ends, in time,    *)
(* with Markdown, unless the HTML parser refused the document.              *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, ph
vars == <<i, ph>>
R == Recs[i]
Budget == 8000      \* milliseconds; the slowest of these inputs needs about 150
Kind == IF R.err = "" THEN "result" ELSE IF R.crash THEN "crash" ELSE "error"
Verdict == (IF Kind = IF R.perr THEN "error" ELSE "result" THEN {} ELSE {Kind})
           \cup (IF R.ms <= Budget THEN {} ELSE {"slow"})
           \cup (IF R.utf8 THEN {} ELSE {"utf8"})
Init == i \in 1..Len(Recs) /\ ph = "started"
Finish == ph = "started" /\ ph' = "judged" /\ i' = i /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(Verdict)))
Next == Finish
Spec == Init /\ [][Next]_vars
============================================================================
