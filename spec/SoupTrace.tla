------------------------------ MODULE SoupTrace -----------------------------
(* Checks recorded conversions of arbitrary HTML: the words of the visible  *)
(* text appear exactly once and in document order (C20), and the output is  *)
(* in normal form (C10).  A record carries the text nodes of the parsed     *)
(* document with the names of the elements around each of them.             *)
EXTENDS MdMeaning, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)

VARIABLES i, n, st, form,
          left   \* the words that are still to come
vars == <<i, n, st, form, left>>
R == Recs[i]
F == INSTANCE Form

Removed == {"head", "script", "style", "link", "meta", "iframe", "noscript", "input", "textarea"}
Visible(l) == l.k = "text" /\ \A k \in 1..Len(l.up) : l.up[k] \notin Removed

(* what is inside of these is not visible in a browser, and may be kept *)
Hidden == {"template"}
Optional(l) == Visible(l) /\ \E k \in 1..Len(l.up) : l.up[k] \in Hidden
Extra(ls) == UNION {{ls[k].w[j] : j \in 1..Len(ls[k].w)} : k \in {m \in 1..Len(ls) : Optional(ls[m])}}

Words(ls) == FoldLeft(LAMBDA a, l : IF Visible(l) /\ ~Optional(l) THEN a \o l.w ELSE a, <<>>, ls)

(* the words of a line *)
RECURSIVE Str(_)
Str(s) == IF s = <<>> THEN "" ELSE s[1] \o Str(SubSeq(s, 2, Len(s)))
WordAt(l, k) == IF l[k] \notin {"w", "c"} THEN <<>>
                ELSE LET e == Skip(l, k + 1, Digits) IN
                     IF e = k + 1 \/ At(l, e) # (IF l[k] = "w" THEN "x" ELSE "c") THEN <<>> ELSE <<Str(SubSeq(l, k, e))>>
WordsOf(l) == Concat([k \in 1..Len(l) |-> WordAt(l, k)])

Ext == (IF R.opt.strike THEN {"S"} ELSE {}) \cup (IF R.opt.table THEN {"T"} ELSE {})
(* the table plugin puts the header first and the caption last *)
Moves == R.opt.table /\ \E k \in 1..Len(R.leaves) : \E j \in 1..Len(R.leaves[k].up) : R.leaves[k].up[j] = "table"

(* words of different blocks stay different words *)
BlockElems == {"p", "div", "section", "article", "main", "header", "footer", "nav", "aside", "blockquote", "h1", "h2", "h3", "h4", "h5", "h6",
           "ul", "ol", "li", "dl", "dt", "dd", "figure", "figcaption", "address", "fieldset", "form", "br", "hr", "pre"}
Verbatim == {"pre", "code", "kbd", "samp", "tt", "var", "xmp", "listing", "plaintext"}
InVerbatim(l) == \E k \in 1..Len(l.up) : l.up[k] \in Verbatim
(* content of a list that is in none of its items: moved into an item *)
RECURSIVE Misplaced(_, _)
Misplaced(up, k) == IF k = 0 THEN FALSE ELSE IF up[k] \in {"ul", "ol"} THEN TRUE
                    ELSE IF up[k] \in BlockElems \cup {"td", "th", "table"} THEN FALSE ELSE Misplaced(up, k - 1)
(* is there whitespace that a reader sees in front of this text? *)
Spaced(l) == \E k \in 1..Len(l.p) : \A j \in 1..Len(l.p[k]) : l.p[k][j] \notin Removed
(* for every visible word: does it have to be apart from the one before? *)
Apart(ls) == FoldLeft(LAMBDA a, l :
    IF ~Visible(l) THEN [a EXCEPT !.x = @ \cup Range(l.x), !.s = @ \/ Spaced(l)]
    ELSE [x |-> {}, vb |-> InVerbatim(l), s |-> FALSE,
          v |-> a.v \o [k \in 1..Len(l.w) |-> IF k > 1 THEN l.g[k] /\ ~InVerbatim(l) ELSE ~(a.vb \/ InVerbatim(l) \/ Misplaced(l.up, Len(l.up)))
                                          /\ ((a.x \cup Range(l.x)) \cap BlockElems # {} \/ a.s \/ Spaced(l) \/ l.g[1])
                                          /\ (a.x \cup Range(l.x)) \cap Verbatim = {}]],
    [x |-> {}, vb |-> TRUE, s |-> FALSE, v |-> <<>>], ls).v
(* for every word that is read: is there whitespace, or the border of a block, in front of it? *)
AtGaps(at) == FoldLeft(LAMBDA a, k :
    LET c == [j \in 1..Len(at) |-> at[j].c] IN
    IF c[k] \in {" ", "BR", "NL"} THEN [a EXCEPT !.g = TRUE]
    ELSE IF WordAt(c, k) # <<>> THEN [v |-> Append(a.v, a.g), g |-> FALSE] ELSE a,
    [v |-> <<>>, g |-> TRUE], [j \in 1..Len(at) |-> j]).v
EvGaps(ev) ==
  CASE ev.e \in {"para", "head"} -> AtGaps(ev.at)
    [] ev.e = "code" -> Concat([k \in 1..Len(ev.ls) |-> AtGaps([j \in 1..Len(ev.ls[k]) |-> [c |-> ev.ls[k][j]]])])
    [] OTHER -> <<>>

(* a null character of the document is replaced by the parser *)
Known(l) == [k \in 1..Len(l) |-> IF l[k] = "REPL" THEN "x" ELSE l[k]]

(* the words that a reader of the Markdown sees *)
AtWords(at) == WordsOf([k \in 1..Len(at) |-> at[k].c])
EvWords(ev) ==
  CASE ev.e \in {"para", "head"} -> AtWords(ev.at)
    [] ev.e = "code" -> Concat([k \in 1..Len(ev.ls) |-> WordsOf(ev.ls[k])])
    [] ev.e = "table" -> Concat([r \in 1..Len(ev.rows) |-> Concat([c \in 1..Len(ev.rows[r]) |-> AtWords(ev.rows[r][c].at)])])
    [] OTHER -> <<>>
ReadWords == LET evs == Meaning(BlockEnd(st), Ext) IN
             SelectSeq(Concat([k \in 1..Len(evs) |-> EvWords(evs[k])]), LAMBDA w : w \notin Extra(R.leaves))
Glued == LET ap == Apart(R.leaves)
             evs == Meaning(BlockEnd(st), Ext)
             gp == Concat([k \in 1..Len(evs) |-> EvGaps(evs[k])])
         IN ~Moves /\ Extra(R.leaves) = {} /\ (Len(ap) # Len(gp) \/ \E k \in 1..Len(ap) : ap[k] /\ ~gp[k])
Same(a, b) == IF Moves THEN Len(a) = Len(b) /\ {a[k] : k \in 1..Len(a)} = {b[k] : k \in 1..Len(b)} ELSE a = b

Init == i \in 1..Len(Recs) /\ n = 0 /\ st = BlockInit /\ form = {} /\ left = Words(Recs[i].leaves)
ReadLine ==
  /\ n >= 0 /\ n < Len(R.out)
  /\ LET l == R.out[n + 1]  ws == SelectSeq(WordsOf(l), LAMBDA w : w \notin Extra(R.leaves)) IN
     /\ st' = BlockLine(st, l, Ext)
     /\ form' = form \cup (IF R.out = <<<<>>>> THEN {} ELSE F!LineForm(Known(l), IF n = 0 THEN <<"x">> ELSE R.out[n], st, st', n + 1 = Len(R.out), 1))
                     \cup (IF Moves \/ ws = SubSeq(left, 1, Min2(Len(ws), Len(left))) THEN {} ELSE {"words"})
     /\ left' = IF Moves THEN FoldLeft(LAMBDA a, w : SelectSeq(a, LAMBDA x : x # w), left, ws) ELSE From(left, Len(ws) + 1)
  /\ n' = n + 1 /\ i' = i
Verdict == IF R.err # "" THEN {"err"}
           ELSE (IF left = <<>> /\ "words" \notin form THEN {} ELSE {"words"})
                \cup (IF ~R.opt.esc \/ Same(ReadWords, Words(R.leaves)) THEN {} ELSE {"read"})
                \cup (IF ~R.opt.esc \/ ~Glued THEN {} ELSE {"glued"})
                \cup (IF ~R.opt.esc \/ (form \ {"words"}) \cup F!Edges(R.out) = {} THEN {} ELSE {"form"})
Judge == /\ n = Len(R.out) /\ n' = -1 /\ UNCHANGED <<i, st, form, left>>
         /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(Verdict)))
         /\ Verdict = {} \/ PrintT("D " \o ToString(R.id) \o " " \o ToString(<<form, left, ReadWords, Words(R.leaves)>>))
Next == ReadLine \/ Judge
Spec == Init /\ [][Next]_vars
============================================================================
