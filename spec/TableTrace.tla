----------------------------- MODULE TableTrace ----------------------------
(* Checks recorded conversions of tables against the table model.           *)
EXTENDS TableModel, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)

VARIABLES i, n, st
vars == <<i, n, st>>
R == Recs[i]

Init == i \in 1..Len(Recs) /\ n = 0 /\ st = BlockInit
ReadLine == /\ n >= 0 /\ n < Len(R.out)
            /\ st' = BlockLine(st, R.out[n + 1], {"S", "T"}) /\ n' = n + 1 /\ i' = i

NoWs(s) == SelectSeq(s, LAMBDA c : c \notin {" ", "NL", "TAB", "BR"})
AtText(at) == NoWs([k \in 1..Len(at) |-> at[k].c])

(* all visible text, to see that a fallback loses nothing *)
EvText(ev) ==
  CASE ev.e \in {"para", "head"} -> AtText(ev.at)
    [] ev.e = "code" -> NoWs(Concat(ev.ls))
    [] ev.e = "table" -> Concat([r \in 1..Len(ev.rows) |-> Concat([c \in 1..Len(ev.rows[r]) |-> AtText(ev.rows[r][c].at)])])
    [] OTHER -> <<>>
AllText(evs) == Concat([k \in 1..Len(evs) |-> EvText(evs[k])])

TextOf(t) == NoWs(Chars("before")) \o AllText(DocMeaning(t.cap, TCfg))
             \o Concat([k \in 1..Len(Cells2(t)) |-> AllText(CellEvents(Cells2(t)[k]))])
             \o NoWs(Chars("after"))

(* the padding of the raw lines *)
RECURSIVE Segs(_, _)
Segs(s, j) == LET e == PipeEnd(s, j) IN IF e > Len(s) THEN <<>> ELSE <<SubSeq(s, j, e - 1)>> \o Segs(s, e + 1)
RawSegs(l) == Segs(TrimR(l, Blank), 2)
Lead(s) == Skip(s, 1, {" "}) - 1
Trailing(s) == Len(s) - LastNot(s, Len(s), {" "})
SegOK(s, pad) ==
  CASE pad = "none" -> Lead(s) = 0 /\ Trailing(s) = 0
    [] pad = "minimal" -> IF Trim(s, {" "}) = <<>> THEN Len(s) = 2 ELSE Lead(s) = 1 /\ Trailing(s) = 1
    [] OTHER -> Lead(s) >= 1 /\ Trailing(s) >= 1
PadOK(raw, pad) ==
  /\ \A k \in 1..Len(raw) : k = 2 \/ \A c \in 1..Len(RawSegs(raw[k])) : SegOK(RawSegs(raw[k])[c], pad)
  /\ IF pad = "aligned"
     THEN \A k \in 1..Len(raw) : [c \in 1..Len(RawSegs(raw[k])) |-> Len(RawSegs(raw[k])[c])] = [c \in 1..Len(RawSegs(raw[1])) |-> Len(RawSegs(raw[1])[c])]
     ELSE \A c \in 1..Len(RawSegs(raw[2])) : Len(RawSegs(raw[2])[c]) = 3

(* more than two line breaks in a row show nothing new *)
BrRuns(at) == FoldLeft(LAMBDA a, x : IF x.c = "BR" /\ Len(a) >= 2 /\ a[Len(a)].c = "BR" /\ a[Len(a) - 1].c = "BR" THEN a ELSE Append(a, x), <<>>, at)
SameCell(got, exp) == exp.any \/ (BrRuns(got.at) = BrRuns(exp.at) /\ NormLinks(got.lk) = exp.lk)

(* the cells of a table that was not converted run into each other (and a    *)
(* blockquote may become a quotation), so only the words are compared        *)
Words(s) == SelectSeq(s, LAMBDA c : c \in Letters \cup Digits)

IsCtx(ev, k) == ev.e \in {"open", "close"} /\ ev.k = k
Surround(t) == CASE t.ctx = "quote" -> <<"q">> [] t.ctx = "li" -> <<"l", "i">> [] OTHER -> <<>>

Verdict ==
  IF R.err # "" THEN {"err"}
  ELSE LET raw == BlockEnd(st)
           evs == Meaning(raw, {"S", "T"})
           T1  == {k \in 1..Len(evs) : evs[k].e = "table"}
           t   == R.t
       IN IF ~Converted(t)
          THEN (IF Words(AllText(evs)) = Words(TextOf(t)) THEN {} ELSE {"lost"})
               \cup (IF T1 = {} THEN {} ELSE {"table"})
          ELSE IF Cardinality(T1) # 1 THEN {"notable"}
          ELSE LET k  == CHOOSE k \in T1 : TRUE
                   ev == evs[k]
                   x  == Expected(t)
                   cap == SelectSeq(DocMeaning(t.cap, TCfg), LAMBDA e : e.e = "para")
                   rest == SelectSeq(evs, LAMBDA e : e.e # "table")
               IN (IF Len(ev.rows) = Len(x.rows) THEN {} ELSE {"rows"})
                  \cup (IF Len(ev.al) = x.w THEN {} ELSE {"columns"})
                  \cup (IF ev.al = Alignments(t, x.w) THEN {} ELSE {"align"})
                  \cup (IF Len(ev.rows) = Len(x.rows) /\ Len(ev.al) = x.w
                           /\ \A r \in 1..Len(x.rows) : \A c \in 1..x.w : SameCell(ev.rows[r][c], x.rows[r][c])
                        THEN {} ELSE {"cell"})
                  \cup (IF PadOK(raw[CHOOSE j \in 1..Len(raw) : raw[j].e = "table"].raw, t.opt.pad) THEN {} ELSE {"padding"})
                  \cup (IF AllText(rest) = NoWs(Chars("before")) \o AllText(cap) \o NoWs(Chars("after")) THEN {} ELSE {"around"})

Judge == /\ n = Len(R.out)
         /\ n' = -1 /\ i' = i /\ st' = BlockInit
         /\ LET v == Verdict IN
            /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(v)))
            /\ v = {} \/ PrintT("D " \o ToString(R.id) \o " " \o ToString(
                 <<"got", SelectSeq(Meaning(BlockEnd(st), {"S", "T"}), LAMBDA e : e.e = "table"), "want", IF Converted(R.t) THEN Expected(R.t) ELSE <<>>>>))
Next == ReadLine \/ Judge
Spec == Init /\ [][Next]_vars
============================================================================
