------------------------------ MODULE ConcTrace -----------------------------
(* Checks recorded histories of several threads that share one converter    *)
(* (C13) against the rule of ConcRule, and the results of their conversions *)
(* against what the same conversion gives on its own.                       *)
EXTENDS ConcRule, SequencesExt, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)

VARIABLES i, n,
          st,     \* the state of the rule
          bad     \* number of the first impossible event
vars == <<i, n, st, bad>>
R == Recs[i]

(* handlers are called in the order of their priorities *)
PriOf(id) == LET k == CHOOSE k \in 1..Len(R.effs) : R.effs[k].id = id IN R.effs[k].pri
Sorted(s) == \A k \in 1..(Len(s) - 1) : PriOf(s[k]) <= PriOf(s[k + 1])

Init == i \in 1..Len(Recs) /\ n = 0 /\ st = Start /\ bad = 0
Step ==
  /\ n >= 0 /\ n < Len(R.events) /\ bad = 0
  /\ LET e == R.events[n + 1]
         t == After(st, e)
         ok == t.poss # {} /\ (e.e = "end" => Sorted(e.res))
     IN st' = t /\ bad' = (IF ok THEN 0 ELSE n + 1) /\ n' = n + 1 /\ i' = i

Counts(s) == \A k \in 1..Len(s) : s[k] = k
ConvBad(c) == (IF c.err = "" THEN {} ELSE {"err"})
              \cup (IF c.out = c.solo THEN {} ELSE {"out"})
              \cup (IF Counts(c.vals) /\ (\A k \in 1..Len(c.doms) : c.doms[k] = c.dom) THEN {} ELSE {"state"})
Verdict == (IF R.err = "" THEN {} ELSE {"err"}) \cup (IF bad = 0 THEN {} ELSE {"order"}) \cup UNION {ConvBad(R.convs[k]) : k \in 1..Len(R.convs)}
Judge == /\ n >= 0 /\ (n = Len(R.events) \/ bad # 0) /\ n' = -1 /\ UNCHANGED <<i, st, bad>>
         /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(Verdict)))
         /\ Verdict = {} \/ PrintT("D " \o ToString(R.id) \o " " \o ToString(<<R.err, IF bad = 0 THEN <<>> ELSE <<R.events[bad], st.pend, st.open>>,
               SelectSeq(R.convs, LAMBDA c : ConvBad(c) # {})>>))
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
============================================================================
