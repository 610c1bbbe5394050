-------------------------------- MODULE FsTrace -----------------------------
(* Checks recorded histories of runs against CliModel (C17), run by run.    *)
EXTENDS CliModel, SequencesExt, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, n, bad
vars == <<i, n, bad>>
R == Recs[i]
S == R.steps[n + 1]
FsOf(seq) == {seq[k] : k \in 1..Len(seq)}
Before == FsOf(IF n = 0 THEN R.fs ELSE R.steps[n].fs)
Now == FsOf(S.fs)
Same(a, b) == a.input = b.input /\ a.output = b.output /\ a.stdin = b.stdin
Aspects ==
  LET kind == Kind(Before, S.run) IN
  IF ThroughLink(Before, S.run) \/ Exists(Before, <<"outside", "target">>) THEN {}
  ELSE IF kind = "error" THEN
         (IF S.exit # 0 /\ S.stderr # "" /\ S.stdout = "" THEN {} ELSE {"status"}) \cup (IF Harmless(Before, S.run, Now) THEN {} ELSE {"files"})
  ELSE (IF S.exit = 0 /\ S.stderr = "" THEN {} ELSE {"status"}) \cup (IF After(Before, S.run, Now, S.stdout) THEN {} ELSE {"files"})
       \* the same run again writes the same files
       \cup (IF n > 0 /\ Same(R.steps[n].run, S.run) /\ R.steps[n].exit = 0 /\ S.exit = 0 /\ S.run.output # ""
                /\ Inputs(Before, S.run) = Inputs(FsOf(IF n = 1 THEN R.fs ELSE R.steps[n - 1].fs), S.run) /\ Now # Before THEN {"again"} ELSE {})
Init == i \in 1..Len(Recs) /\ n = 0 /\ bad = {}
Step == /\ n >= 0 /\ n < Len(R.steps) /\ bad = {}
        /\ bad' = Aspects /\ n' = n + 1 /\ i' = i
Judge == /\ n >= 0 /\ (IF n = Len(R.steps) THEN TRUE ELSE bad # {}) /\ n' = -1 /\ UNCHANGED <<i, bad>>
         /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(bad)))
         /\ IF bad = {} THEN TRUE ELSE PrintT("D " \o ToString(R.id) \o " run " \o ToString(n))
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
