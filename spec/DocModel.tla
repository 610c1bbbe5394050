------------------------------ MODULE DocModel -----------------------------
(* The meaning of an HTML document, given as a stream of tokens.            *)
(*                                                                          *)
(* token: [k, e, s, a, b]                                                   *)
(*   k = "o" open element e, "c" close, "t" text s, "v" void element e,     *)
(*       "p" preformatted block with content s                              *)
(*   a, b: attributes - href/src/start/class of code (a) and title/class of pre (b); *)
(*       s: the alt text of an image                                        *)
(* cfg: the options of the conversion (see Default)                         *)
EXTENDS MdMeaning

Default == [em |-> "*", strong |-> "**", hr |-> "* * *", bullet |-> "-", fence |-> "```",
            head |-> "atx", lec |-> TRUE, del |-> "~~", esc |-> TRUE,
            strike |-> TRUE, table |-> FALSE, ehref |-> "render", econt |-> "render"]

T(k, e, s, a, b) == [k |-> k, e |-> e, s |-> s, a |-> a, b |-> b]

BoldTags == {"strong", "b"}
ItalicTags == {"em", "i"}
StrikeTags == {"del", "s", "strike"}
CodeTags == {"code", "kbd", "samp", "tt", "var"}
PlainTags == {"span", "u", "small", "mark", "abbr", "time", "font"}
InlineTags == BoldTags \cup ItalicTags \cup StrikeTags \cup CodeTags \cup PlainTags \cup {"a"}
HeadTags == {"h1", "h2", "h3", "h4", "h5", "h6"}
ListTags == {"ul", "ol"}
Transparent == {"div", "section", "article", "main", "header", "footer", "aside", "nav", "figure", "figcaption", "p", "form", "address", "fieldset"}

Level(e) == CASE e = "h1" -> 1 [] e = "h2" -> 2 [] e = "h3" -> 3 [] e = "h4" -> 4 [] e = "h5" -> 5 [] OTHER -> 6

StyleOf(e, cfg) == CASE e \in BoldTags -> {"B"} [] e \in ItalicTags -> {"I"}
                     [] e \in StrikeTags /\ cfg.strike -> {"S"} [] e \in CodeTags -> {"C"} [] OTHER -> {}

Ext(cfg) == (IF cfg.strike THEN {"S"} ELSE {}) \cup (IF cfg.table THEN {"T"} ELSE {})

---------------------------------------------------------------------------
(* percent decoding, to compare destinations *)
AsciiTable == << " ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",
  "0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?","@",
  "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
  "[","\\","]","^","_","`",
  "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
  "{","|","}","~" >>
HexOf(c) == CASE c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12
              [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] c \in {"f","F"} -> 15 [] OTHER -> DigitVal(c)
Byte(s, i) == IF At(s, i) = "%" /\ At(s, i + 1) \in HexDigits /\ At(s, i + 2) \in HexDigits
              THEN 16 * HexOf(s[i + 1]) + HexOf(s[i + 2]) ELSE -1
PctDecode(s) ==
  FoldLeft(LAMBDA st, i :
     IF i < st.nx THEN st
     ELSE LET b == Byte(s, i) IN
       CASE b = 195 /\ Byte(s, i + 3) = 169 -> [nx |-> i + 6, v |-> Append(st.v, "é")]
         [] b >= 32 /\ b <= 126 -> [nx |-> i + 3, v |-> Append(st.v, AsciiTable[b - 31])]
         [] b = 10 -> [nx |-> i + 3, v |-> Append(st.v, "NL")]
         [] b = 13 -> [nx |-> i + 3, v |-> Append(st.v, "CR")]
         [] b = 9 -> [nx |-> i + 3, v |-> Append(st.v, "TAB")]
         [] OTHER -> [nx |-> i + 1, v |-> Append(st.v, s[i])],
     [nx |-> 1, v |-> <<>>], [i \in 1..Len(s) |-> i]).v

(* text of titles and alt descriptions: whitespace collapses *)
Squash(s) == LET r == FoldLeft(LAMBDA a, c : IF c \in {" ", "NL", "TAB", "CR"}
                                             THEN (IF a # <<>> /\ a[Len(a)] = " " THEN a ELSE Append(a, " "))
                                             ELSE Append(a, c), <<>>, s)
             IN Trim(r, {" "})

NormLink(l) == [im |-> l.im, dest |-> PctDecode(Trim(l.dest, WsNl)), title |-> Squash(l.title), alt |-> Squash(l.alt)]
NormLinks(lk) == [i \in 1..Len(lk) |-> NormLink(lk[i])]

---------------------------------------------------------------------------
(* the fold over the tokens *)

DocInit == [ev |-> <<>>, at |-> <<>>, lk |-> <<>>, st |-> <<>>, sty |-> {}, ln |-> 0, hd |-> 0]

RECURSIVE SplitBr(_, _, _)
(* splits normalised atoms at two consecutive breaks *)
SplitBr(at, i, cur) ==
  IF i > Len(at) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF at[i].c = "BR" /\ i < Len(at) /\ at[i + 1].c = "BR" THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o SplitBr(at, i + 2, <<>>)
  ELSE IF at[i].c = "BR" /\ cur = <<>> THEN SplitBr(at, i + 1, cur)
  ELSE SplitBr(at, i + 1, Append(cur, at[i]))

BrToSpace(at) == [i \in 1..Len(at) |-> IF at[i].c = "BR" THEN SpaceAtom ELSE at[i]]

(* ends the pending run of inline content *)
Flush(d, cfg) ==
  LET n == Normal(IF d.hd > 0 /\ ~(cfg.head = "setext" /\ d.hd <= 2) THEN BrToSpace(d.at) ELSE d.at)
      evs == CASE n = <<>> -> <<>>
               [] d.hd > 0 -> <<[e |-> "head", n |-> d.hd, at |-> n, lk |-> d.lk]>>
               [] OTHER -> LET ps == SplitBr(n, 1, <<>>) IN
                           [i \in 1..Len(ps) |-> [e |-> "para", at |-> ps[i], lk |-> IF i = 1 THEN d.lk ELSE <<>>]]
  IN [d EXCEPT !.ev = @ \o evs, !.at = <<>>, !.lk = <<>>]

ListStart(a) == IF a # <<>> /\ (\A i \in 1..Len(a) : a[i] \in Digits) THEN NumVal(a) ELSE 1

Frame(d, e, re) == [e |-> e, sty |-> d.sty, ln |-> d.ln, hd |-> d.hd, re |-> re]

(* the blocks inside of an inline element (other than those that only        *)
(* separate paragraphs) have no place in Markdown: lists become a sequence of *)
(* words, headings become bold lines                                         *)
InInline(d) == d.hd > 0 \/ \E k \in 1..Len(d.st) : d.st[k].e \in InlineTags \ PlainTags
Lost(d, e) == e \in ListTags \cup {"li"} \cup HeadTags /\ InInline(d)

OpenTok(d, t, cfg) ==
  LET e == t.e IN
  CASE Lost(d, e) ->
         LET p == [d EXCEPT !.st = Append(@, Frame(d, e, FALSE)), !.at = Append(@, SpaceAtom)] IN
         IF e \in HeadTags THEN [p EXCEPT !.sty = @ \cup {"B"}] ELSE p
    [] e \in InlineTags ->
         LET p == [d EXCEPT !.st = Append(@, Frame(d, e, FALSE)), !.sty = @ \cup StyleOf(e, cfg)] IN
         IF e = "a"
         THEN [p EXCEPT !.lk = Append(@, NormLink([im |-> FALSE, dest |-> t.a, title |-> t.b, alt |-> <<>>])), !.ln = Len(d.lk) + 1]
         ELSE p
    [] e \in HeadTags -> LET f == Flush(d, cfg) IN [f EXCEPT !.st = Append(@, Frame(d, e, FALSE)), !.hd = Level(e)]
    [] e \in ListTags ->
         LET f  == Flush(d, cfg)
             up == IF d.st # <<>> THEN d.st[Len(d.st)].e ELSE ""
             re == up \in ListTags   \* a list directly inside of a list belongs to the item before it
             n  == Len(f.ev)
             g  == IF ~re THEN f.ev
                   ELSE IF f.ev[n] = [e |-> "close", k |-> "i"] THEN SubSeq(f.ev, 1, n - 1)
                   ELSE Append(f.ev, [e |-> "open", k |-> "i"])
         IN [f EXCEPT !.st = Append(@, Frame(d, e, re)),
                      !.ev = Append(g, [e |-> "open", k |-> "l", o |-> e = "ol", n |-> IF e = "ol" THEN ListStart(t.a) ELSE 0])]
    [] e = "li" -> LET f == Flush(d, cfg) IN [f EXCEPT !.st = Append(@, Frame(d, e, FALSE)), !.ev = Append(@, [e |-> "open", k |-> "i"])]
    [] e = "blockquote" -> LET f == Flush(d, cfg) IN [f EXCEPT !.st = Append(@, Frame(d, e, FALSE)), !.ev = Append(@, [e |-> "open", k |-> "q"])]
    [] OTHER -> LET f == Flush(d, cfg) IN [f EXCEPT !.st = Append(@, Frame(d, e, FALSE))]

(* an element without content leaves no trace *)
CloseEv(ev, k) == LET n == Len(ev) IN
  IF n > 0 /\ ev[n].e = "open" /\ ev[n].k = k THEN SubSeq(ev, 1, n - 1) ELSE Append(ev, [e |-> "close", k |-> k])

CloseTok(d, cfg) ==
  LET fr == d.st[Len(d.st)]
      e  == fr.e
      lost == Lost([d EXCEPT !.st = SubSeq(@, 1, Len(@) - 1), !.hd = fr.hd], e)
      g  == IF lost THEN [d EXCEPT !.at = Append(@, IF e \in HeadTags THEN Atom("BR", {}, 0) ELSE SpaceAtom)]
            ELSE IF e \in InlineTags THEN d ELSE Flush(d, cfg)
      h  == [g EXCEPT !.st = SubSeq(@, 1, Len(@) - 1), !.sty = fr.sty, !.ln = fr.ln, !.hd = fr.hd]
  IN CASE lost -> h
       [] e \in ListTags -> LET c == CloseEv(h.ev, "l") IN [h EXCEPT !.ev = IF fr.re THEN CloseEv(c, "i") ELSE c]
       [] e = "li" -> [h EXCEPT !.ev = CloseEv(@, "i")]
       [] e = "blockquote" -> [h EXCEPT !.ev = CloseEv(@, "q")]
       [] OTHER -> h

RECURSIVE SplitLines(_, _)
SplitLines(s, i) == LET e == Find(s, i, {"NL"}) IN
                    IF e > Len(s) THEN <<From(s, i)>> ELSE <<SubSeq(s, i, e - 1)>> \o SplitLines(s, e + 1)

(* the language of a code block: the first class that contains a prefix *)
Without(s, p) == LET i == FindSub(s, 1, p) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o From(s, i + Len(p))
LangPart(s) == Without(Without(s, Chars("language-")), Chars("lang-"))
RECURSIVE LangOf(_)
LangOf(class) ==
  IF class = <<>> THEN <<>>
  ELSE LET e == Find(class, 1, {" ", "TAB", "NL"})
           p == SubSeq(class, 1, e - 1)
       IN IF FindSub(p, 1, Chars("language-")) # 0 \/ FindSub(p, 1, Chars("lang-")) # 0 THEN LangPart(p)
          ELSE LangOf(From(class, e + 1))
(* the class of the pre (b) wins over the one of the code inside of it (a) *)
Language(t) == IF LangOf(t.b) # <<>> THEN LangOf(t.b) ELSE LangOf(t.a)
(* a language behind backticks cannot contain backticks *)
InfoOf(t, cfg) == IF cfg.fence = "~~~" THEN Language(t) ELSE SelectSeq(Language(t), LAMBDA ch : ch # "`")

(* the ends of lines in Markdown: NL, CR and CR NL *)
OneEnd(s) == LET m == FoldLeft(LAMBDA a, c : IF c = "NL" /\ a # <<>> /\ a[Len(a)] = "CR" THEN [a EXCEPT ![Len(a)] = "NL"] ELSE Append(a, c), <<>>, s)
             IN [i \in 1..Len(m) |-> IF m[i] = "CR" THEN "NL" ELSE m[i]]
(* html.Parse drops one newline directly after <pre>; the converter one at the end.
   The harness writes <pre><code>, so that the first rule does not apply. *)
PreLines(r) == LET s == OneEnd(r)
                   c == IF s # <<>> /\ s[Len(s)] = "NL" THEN SubSeq(s, 1, Len(s) - 1) ELSE s IN SplitLines(c, 1)

VoidTok(d, t, cfg) ==
  CASE t.e = "br" -> [d EXCEPT !.at = Append(@, Atom("BR", {}, 0))]
    [] t.e = "hr" -> LET f == Flush(d, cfg) IN [f EXCEPT !.ev = Append(@, [e |-> "hr"])]
    [] t.e = "img" ->
         IF Trim(t.a, WsNl) = <<>> THEN d
         ELSE [d EXCEPT !.at = Append(@, Atom("IMG", d.sty, Len(d.lk) + 1)),
                        !.lk = Append(@, NormLink([im |-> TRUE, dest |-> t.a, title |-> t.b, alt |-> t.s]))]
    [] OTHER -> d    \* comment, script, ...: removed

DocStep(d, t, cfg) ==
  CASE t.k = "o" -> OpenTok(d, t, cfg)
    [] t.k = "c" -> CloseTok(d, cfg)
    [] t.k = "t" -> [d EXCEPT !.at = AddAtoms(@, t.s, d.sty, d.ln)]
    [] t.k = "v" -> VoidTok(d, t, cfg)
    [] t.k = "p" -> LET f == Flush(d, cfg) IN [f EXCEPT !.ev = Append(@, [e |-> "code", info |-> InfoOf(t, cfg), ls |-> PreLines(t.s)])]

(* without the comment between them two lists of the same kind become one *)
JoinLists(evs) == FoldLeft(LAMBDA a, ev :
    LET n == Len(a) IN
    IF n > 0 /\ ev.e = "open" /\ ev.k = "l" /\ a[n].e = "close" /\ a[n].k = "l" /\ a[n].o = ev.o
    THEN SubSeq(a, 1, n - 1) ELSE Append(a, ev), <<>>, evs)
(* a close event of a list carries its kind, for JoinLists *)
Kinds(evs) == FoldLeft(LAMBDA a, ev :
    IF ev.e = "open" /\ ev.k = "l" THEN [v |-> Append(a.v, ev), s |-> Append(a.s, ev.o)]
    ELSE IF ev.e = "close" /\ ev.k = "l" THEN [v |-> Append(a.v, [e |-> "close", k |-> "l", o |-> a.s[Len(a.s)]]), s |-> SubSeq(a.s, 1, Len(a.s) - 1)]
    ELSE [a EXCEPT !.v = Append(@, ev)], [v |-> <<>>, s |-> <<>>], evs).v
Plain(evs) == [i \in 1..Len(evs) |-> IF evs[i].e = "close" THEN [e |-> "close", k |-> evs[i].k] ELSE evs[i]]

DocMeaning(toks, cfg) ==
  LET evs == Flush(FoldLeft(LAMBDA d, t : DocStep(d, t, cfg), DocInit, toks), cfg).ev
  IN IF cfg.lec THEN evs ELSE Plain(JoinLists(Kinds(evs)))

---------------------------------------------------------------------------
(* the meaning of the Markdown, in the same terms *)

NormEvent(ev) ==
  CASE ev.e \in {"para", "head"} -> [ev EXCEPT !.lk = NormLinks(@)]
    [] OTHER -> ev
ReadMeaning(evs, cfg) == LET m == Meaning(evs, Ext(cfg)) IN [i \in 1..Len(m) |-> NormEvent(m[i])]
============================================================================
