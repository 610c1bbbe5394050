------------------------------ MODULE FlagTrace -----------------------------
(* Checks recorded runs of the command line tool against FlagModel (C19).   *)
EXTENDS FlagModel, SequencesExt, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, ph
vars == <<i, ph>>
R == Recs[i]
Quiet == R.stderr = ""
Written(to, text) == R.files = <<[p |-> to, c |-> text]>>
Verdict ==
  LET o == Outcome(R.args, R.stdin) IN
  CASE o.k = "any" -> {}
    [] o.k = "error" -> (IF R.exit # 0 THEN {} ELSE {"status"}) \cup (IF R.stderr # "" /\ Contains(R.stderr, o.name) THEN {} ELSE {"message"})
                        \cup (IF R.stdout = "" /\ R.files = <<>> THEN {} ELSE {"output"})
    [] R.full /\ (o.k # "ok" \/ o.to = "stdout") -> IF o.k = "ok" /\ (R.exit = 0 \/ R.stderr = "") THEN {"full"} ELSE {}
    [] o.k \in {"help", "version"} ->
         (IF R.exit = 0 /\ Quiet /\ R.files = <<>> THEN {} ELSE {"status"})
         \cup (IF o.k = "version" THEN IF Contains(R.stdout, "Version") THEN {} ELSE {"version"}
               ELSE IF \A n \in Names : Contains(R.stdout, "-" \o n) THEN {} ELSE {"help"})
    [] o.k = "ok" -> (IF R.exit = 0 /\ Quiet THEN {} ELSE {"status"})
                     \cup (IF o.to = "stdout" THEN IF R.stdout = R.lib \o "\n" /\ R.files = <<>> THEN {} ELSE {"output"}
                           ELSE IF R.stdout = "" /\ Written(o.to, R.lib) THEN {} ELSE {"output"})
Init == i \in 1..Len(Recs) /\ ph = "started"
Finish == ph = "started" /\ ph' = "judged" /\ i' = i /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(Verdict)))
Next == Finish
Spec == Init /\ [][Next]_vars
=============================================================================
