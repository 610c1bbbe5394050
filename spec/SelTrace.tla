------------------------------- MODULE SelTrace -----------------------------
(* Checks the conversions of the command line tool with selectors against   *)
(* SelModel: the words of exactly the selected texts, in their order, and   *)
(* the same output as for the document that has only these.                 *)
EXTENDS SelModel, SequencesExt, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, ph
vars == <<i, ph>>
R == Recs[i]
D == [k \in 1..Len(R.d) |-> [R.d[k] EXCEPT !.cls = ToSet(@)]]
Verdict == IF R.exit # 0 \/ R.rexit # 0 THEN {"status"}
           ELSE (IF R.words = WordsOf(D, Remain(D, R.inc, R.exc), 1) THEN {} ELSE {"words"}) \cup (IF R.out = R.ref THEN {} ELSE {"output"})
Init == i \in 1..Len(Recs) /\ ph = "started"
Finish == ph = "started" /\ ph' = "judged" /\ i' = i /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(Verdict)))
Next == Finish
Spec == Init /\ [][Next]_vars
=============================================================================
