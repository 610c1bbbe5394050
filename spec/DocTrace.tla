------------------------------ MODULE DocTrace -----------------------------
(* Checks recorded conversions against the specification: the recorded      *)
(* Markdown is read line by line (each line is one transition of the block  *)
(* machine), and the events must be the meaning of the tokens.              *)
EXTENDS DocModel, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)

VARIABLES i,     \* the record
          n,     \* lines read
          st,    \* the block machine
          form   \* violations of the normal form so far
vars == <<i, n, st, form>>

R == Recs[i]

Init == i \in 1..Len(Recs) /\ n = 0 /\ st = BlockInit /\ form = {}

---------------------------------------------------------------------------
(* normal form of the output (C10) *)
F == INSTANCE Form

ReadLine == /\ n >= 0 /\ n < Len(R.out)
            /\ st' = BlockLine(st, R.out[n + 1], Ext(R.cfg)) /\ n' = n + 1 /\ i' = i
            /\ form' = form \cup (IF R.out = <<<<>>>> THEN {}
                                  ELSE F!LineForm(R.out[n + 1], IF n = 0 THEN <<"x">> ELSE R.out[n], st, st', n + 1 = Len(R.out), 0))

(* the configured markers are used everywhere (C16) *)
EvOptsOK(ev, cfg) ==
  CASE ev.e = "open" -> ~(ev.k = "l") \/ ev.o \/ ev.d = cfg.bullet
    [] ev.e = "hr" -> Trim(ev.s, Blank) = Trim(Chars(cfg.hr), Blank)
    [] ev.e = "code" -> ev.f[1] = SubSeq(cfg.fence, 1, 1) /\ ev.f[2] >= Len(cfg.fence)
    [] ev.e = "html" -> cfg.lec     \* only the list end comment is html
    [] ev.e = "head" -> ev.st = IF cfg.head = "setext" /\ ev.n <= 2 THEN "setext" ELSE "atx"
    [] OTHER -> TRUE
InlineOf(ev) == CASE ev.e \in {"para", "head"} -> <<ev.s>>
                  [] ev.e = "table" -> Concat(ev.rows)
                  [] OTHER -> <<>>
DelimsOK(s, cfg) ==
  LET dl == Inline(s, Ext(cfg)).dl IN
  \A d \in dl : CASE d[1] = "B" -> d[2] = SubSeq(cfg.strong, 1, 1)
                  [] d[1] = "I" -> d[2] = cfg.em
                  [] d[1] = "S" -> d[2] = "~" /\ d[3] = Len(cfg.del)
OptsOK(evs, cfg) == \A k \in 1..Len(evs) :
  /\ EvOptsOK(evs[k], cfg)
  /\ LET ss == InlineOf(evs[k]) IN \A j \in 1..Len(ss) : DelimsOK(ss[j], cfg)

---------------------------------------------------------------------------
FirstDiff(a, b) == LET D == {k \in 1..Max2(Len(a), Len(b)) : k > Len(a) \/ k > Len(b) \/ a[k] # b[k]}
                   IN CHOOSE k \in D : \A m \in D : k <= m
EvAt(a, k) == IF k > Len(a) THEN [e |-> "none"] ELSE a[k]

(* escaping (C02): R.raw is the output with escaping disabled *)
IsText(k) == R.toks[k].k = "t"
Text == Concat([k \in 1..Len(R.toks) |-> IF R.toks[k].k \in {"t", "p"} THEN R.toks[k].s ELSE <<>>])
Slashes(s) == Cardinality({k \in 1..Len(s) : s[k] = "\\"})
LinesSlashes(ls) == FoldLeft(LAMBDA a, l : a + Slashes(l), 0, ls)
(* s is r with backslashes in front of punctuation *)
OnlyEscaped(s, r) ==
  LET Z == FoldLeft(LAMBDA P, k :
             {<<p[1] + 1, FALSE>> : p \in {q \in P : At(r, q[1]) = s[k]}}
             \cup {<<p[1], TRUE>> : p \in {q \in P : ~q[2] /\ s[k] = "\\" /\ At(s, k + 1) \in AsciiPunct /\ At(s, k + 1) = At(r, q[1])}},
           {<<1, FALSE>>}, [k \in 1..Len(s) |-> k])
  IN \E p \in Z : p[1] = Len(r) + 1
Significant == AsciiPunct \ {"/", ",", ";", "?", "@", "%", "^", "{", "}", ":", "&"}
EscOK ==
  /\ Len(R.raw) = Len(R.out)
  /\ \A k \in 1..Len(R.raw) : OnlyEscaped(R.out[k], R.raw[k])
  /\ LinesSlashes(R.raw) = Slashes(Text)
  /\ \A k \in 1..Len(R.raw) : \A c \in 1..Len(R.raw[k]) : R.raw[k][c] \notin F!Placeholder
  /\ (\A k \in 1..Len(Text) : Text[k] \notin Significant) => LinesSlashes(R.out) = 0

Verdict ==
  IF R.err # "" THEN {"err"}
  ELSE LET evs == BlockEnd(st)
           got == ReadMeaning(evs, R.cfg)
           exp == DocMeaning(R.toks, R.cfg)
       IN (IF got = exp THEN {} ELSE {"meaning"})
          \cup (IF form \cup F!Edges(R.out) = {} /\ ~R.cr THEN {} ELSE {"form"})
          \cup (IF OptsOK(evs, R.cfg) THEN {} ELSE {"opts"})
          \cup (IF "raw" \notin DOMAIN R \/ EscOK THEN {} ELSE {"esc"})

Detail == LET got == ReadMeaning(BlockEnd(st), R.cfg)
              exp == DocMeaning(R.toks, R.cfg)
          IN IF R.err # "" THEN R.err ELSE IF got = exp THEN ToString(form) ELSE LET k == FirstDiff(got, exp) IN <<"got", EvAt(got, k), "want", EvAt(exp, k)>>

Judge == /\ n = Len(R.out)
         /\ n' = -1 /\ i' = i /\ st' = BlockInit /\ form' = {}
         /\ LET v == Verdict IN
            /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(v)))
            /\ v = {} \/ PrintT("D " \o ToString(R.id) \o " " \o ToString(Detail))

Next == ReadLine \/ Judge
Spec == Init /\ [][Next]_vars
============================================================================
