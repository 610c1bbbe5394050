------------------------------ MODULE FuncTrace -----------------------------
(* Conversions are a function: the state of the specification is what is    *)
(* known of that function, and every recorded conversion has to agree with  *)
(* it - whatever was converted before, by which converter, through which    *)
(* entry point and with which chunks (C14, C21).  The function may depend   *)
(* on the plugins, the document and the domain, and on nothing else.        *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)

VARIABLES i, o, memo, bad
vars == <<i, o, memo, bad>>
R == Recs[i]
Op == R.ops[o + 1]
Plugins(op) == IF op.e \in {"pkgstring", "pkgreader", "pkgnode"} \/ op.c \notin {3, 5, 6} THEN "default" ELSE IF op.c = 3 THEN "all" ELSE IF op.c = 5 THEN "broken" ELSE "post"
Key(op) == <<Plugins(op), op.d, op.dom>>
(* an entry point fails exactly if its reader fails, with that error *)
(* or if its converter was not set up properly *)
ErrOK(op) == IF Plugins(op) = "broken" THEN op.err # "" /\ op.out = "" ELSE IF op.e = "fail" THEN op.err # "" /\ op.sent /\ op.out = "" ELSE op.err = ""
Wrong(op) ==
  (IF ErrOK(op) THEN {} ELSE {"err"})
  \cup (IF op.e = "fail" \/ op.err # "" \/ Key(op) \notin DOMAIN memo \/ memo[Key(op)] = op.out THEN {} ELSE {"differs"})
  \cup (IF op.fin = op.out THEN {} ELSE {"changed"})     \* the result was changed afterwards
Init == i \in 1..Len(Recs) /\ o = 0 /\ memo = <<>> /\ bad = {}
Conv == /\ o >= 0 /\ o < Len(R.ops)
        /\ bad' = bad \cup Wrong(Op)
        /\ bad' = {} \/ bad # {} \/ PrintT("D " \o ToString(R.id) \o " " \o ToString(<<"op", o + 1, Op, IF Key(Op) \in DOMAIN memo THEN memo[Key(Op)] ELSE "">>))
        /\ memo' = IF ErrOK(Op) /\ Op.err = "" /\ Key(Op) \notin DOMAIN memo THEN memo @@ (Key(Op) :> Op.out) ELSE memo
        /\ o' = o + 1 /\ i' = i
Judge == /\ o = Len(R.ops) /\ o' = -1 /\ UNCHANGED <<i, memo, bad>>
         /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(bad)))
Next == Conv \/ Judge
Spec == Init /\ [][Next]_vars
============================================================================
