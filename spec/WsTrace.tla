------------------------------- MODULE WsTrace ------------------------------
(* Checks recorded calls of collapse.Collapse against the model: once on    *)
(* the generated tree, and again on its own result.                         *)
EXTENDS WsModel, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)

VARIABLES i, call, cur
vars == <<i, call, cur>>
R == Recs[i]
K == IF R.kinds = "swap" THEN SwapKinds ELSE DefaultKinds

Init == i \in 1..Len(Recs) /\ call = 0 /\ cur = Recs[i].toks
(* one call: the tree that the code left must be the one of the model *)
Good(n) == Shape(NoEmpty(R.outs[n])) = Shape(Collapsed(cur, K))
Call == /\ call >= 0 /\ call < Len(R.outs) /\ R.err = "" /\ Good(call + 1)
        /\ call' = call + 1 /\ cur' = R.outs[call + 1] /\ i' = i
Stop == /\ call >= 0 /\ ~ENABLED Call
        /\ LET v == IF R.err # "" THEN {"err"} ELSE IF call = Len(R.outs) THEN {} ELSE IF call = 0 THEN {"collapse"} ELSE {"again"} IN
           /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(v)))
           /\ v = {} \/ PrintT("D " \o ToString(R.id) \o " " \o ToString(<<"want", Collapsed(cur, K)>>))
        /\ call' = -1 /\ UNCHANGED <<i, cur>>
Next == Call \/ Stop
Spec == Init /\ [][Next]_vars
============================================================================
