------------------------------ MODULE OptTrace -----------------------------
(* Checks what the converter does with option values: an invalid one is an  *)
(* error of every conversion and there is no output; valid ones work, and a *)
(* valid divider reads back as a divider.                                   *)
EXTENDS OptModel, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, n, st
vars == <<i, n, st>>
R == Recs[i]

Init == i \in 1..Len(Recs) /\ n = 0 /\ st = BlockInit
ReadLine == /\ n >= 0 /\ n < Len(R.out)
            /\ st' = BlockLine(st, R.out[n + 1], {"S", "T"}) /\ n' = n + 1 /\ i' = i
Lead == Skip(R.o["hr"], 1, {" "}) - 1
Verdict ==
  IF Invalid(R.o) # {}
  THEN (IF \A k \in 1..Len(R.errs) : R.errs[k] \notin {"", "PANIC"} THEN {} ELSE {"accepted"})
       \cup (IF R.out = <<<<>>>> THEN {} ELSE {"output"})
  ELSE (IF \A k \in 1..Len(R.errs) : R.errs[k] = "" THEN {} ELSE {"rejected"})
       \cup (IF (\E k \in 1..Len(R.errs) : R.errs[k] # "") \/ Lead >= 4 THEN {}
             ELSE LET ev == Meaning(BlockEnd(st), {"S", "T"}) IN
                  IF Len(ev) = 3 /\ ev[1].e = "para" /\ ev[2].e = "hr" /\ ev[3].e = "para" THEN {} ELSE {"divider"})
Judge == /\ n = Len(R.out) /\ n' = -1 /\ i' = i /\ st' = BlockInit
         /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(Verdict)))
Next == ReadLine \/ Judge
Spec == Init /\ [][Next]_vars
============================================================================
