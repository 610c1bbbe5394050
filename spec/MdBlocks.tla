------------------------------ MODULE MdBlocks -----------------------------
(* The block level of the CommonMark 0.31 reader (plus GFM tables), as a    *)
(* line machine: BlockLine(st, line, ext) is one transition.                *)
(*                                                                          *)
(*   st.ct : open containers, outermost first: "q" quote, "l" list, "i" item *)
(*   st.lf : the open leaf: "n" none, "p" paragraph, "f" fenced code,       *)
(*           "x" indented code, "h" html, "t" table                         *)
(*   st.ev : the block events so far                                        *)
EXTENDS MdInline

NoLeaf == [k |-> "n"]
BlockInit == [ct |-> <<>>, lf |-> NoLeaf, ev |-> <<>>]

(* number of columns of whitespace at position i; tabs go to multiples of 4 *)
RECURSIVE Indent(_, _)
Indent(s, i) == IF i > Len(s) THEN 0
                ELSE IF s[i] = " " THEN 1 + Indent(s, i + 1)
                ELSE IF s[i] = "TAB"
                     THEN LET n == 4 - ((i - 1) % 4) IN n + Indent(SubSeq(s, 1, i - 1) \o Rep(" ", n) \o From(s, i + 1), i + n)
                ELSE 0

RECURSIVE TakeCols(_, _, _)
(* removes up to n columns of whitespace at position i *)
TakeCols(s, i, n) ==
  IF n = 0 \/ i > Len(s) THEN [s |-> s, i |-> i]
  ELSE IF s[i] = " " THEN TakeCols(s, i + 1, n - 1)
  ELSE IF s[i] = "TAB" THEN TakeCols(SubSeq(s, 1, i - 1) \o Rep(" ", 4 - ((i - 1) % 4)) \o From(s, i + 1), i, n)
  ELSE [s |-> s, i |-> i]

---------------------------------------------------------------------------
(* recognisers for the start of a block; j is the first non-blank index *)

IsThematic(s, j) ==
  LET c == At(s, j) IN
  /\ c \in {"*", "-", "_"}
  /\ \A k \in j..Len(s) : s[k] = c \/ s[k] \in Blank
  /\ Cardinality({k \in j..Len(s) : s[k] = c}) >= 3

AtxLevel(s, j) ==
  LET e == Skip(s, j, {"#"}) IN
  IF e > j /\ e - j <= 6 /\ (e > Len(s) \/ s[e] \in Blank) THEN e - j ELSE 0

AtxContent(s, j, n) ==
  LET t == Trim(From(s, j + n), Blank)
      e == LastNot(t, Len(t), {"#"})
  IN IF e = 0 THEN <<>>
     ELSE IF e < Len(t) /\ t[e] \in Blank THEN TrimR(SubSeq(t, 1, e), Blank) ELSE t

IsSetext(s, j) ==
  LET c == At(s, j)
      e == Skip(s, j, {c})
  IN c \in {"=", "-"} /\ Skip(s, e, Blank) > Len(s)

FenceLen(s, j) ==
  LET c == At(s, j)
      e == Skip(s, j, {c})
  IN IF c \in {"`", "~"} /\ e - j >= 3 /\ (c = "~" \/ \A k \in e..Len(s) : s[k] # "`") THEN e - j ELSE 0

(* list marker: [w: width of the marker (0: none), o: ordered, d: delimiter, n: number] *)
Marker(s, j) ==
  LET c == At(s, j)
      e == Skip(s, j, Digits)
      no == [w |-> 0, o |-> FALSE, d |-> "", n |-> 0]
      after(k) == k > Len(s) \/ s[k] \in Blank
  IN CASE c \in {"-", "+", "*"} /\ after(j + 1) -> [w |-> 1, o |-> FALSE, d |-> c, n |-> 0]
       [] e > j /\ e - j <= 9 /\ At(s, e) \in {".", ")"} /\ after(e + 1) ->
            [w |-> e - j + 1, o |-> TRUE, d |-> s[e], n |-> NumVal(SubSeq(s, j, e - 1))]
       [] OTHER -> no

BlockTags == {"address","article","aside","base","basefont","blockquote","body","caption","center","col","colgroup",
  "dd","details","dialog","dir","div","dl","dt","fieldset","figcaption","figure","footer","form","frame","frameset",
  "h1","h2","h3","h4","h5","h6","head","header","hr","html","iframe","legend","li","link","main","menu","menuitem",
  "nav","noframes","ol","optgroup","option","p","param","search","section","summary","table","tbody","td","tfoot",
  "th","thead","title","tr","track","ul"}
BlockTagChars == {Chars(t) : t \in BlockTags}
RawTagChars == {Chars("script"), Chars("pre"), Chars("style"), Chars("textarea")}

HtmlKind(s, j, inPara) ==
  IF At(s, j) # "<" THEN 0
  ELSE LET cl == At(s, j + 1) = "/"
           b  == IF cl THEN j + 2 ELSE j + 1
           e  == Skip(s, b, AlphaNum)
           nm == [k \in 1..(e - b) |-> LowerOf(s[b + k - 1])]
           nx == At(s, e)
           t7 == IF At(s, b) \in Letters THEN HtmlEnd(s, j) ELSE 0
       IN CASE ~cl /\ nm \in RawTagChars /\ nx \in {" ", "TAB", ">", "EOF"} -> 1
            [] PrefixAt(s, j, <<"<", "!", "-", "-">>) -> 2
            [] At(s, j + 1) = "?" -> 3
            [] At(s, j + 1) = "!" /\ At(s, j + 2) \in Letters -> 4
            [] nm \in BlockTagChars /\ (nx \in {" ", "TAB", ">", "EOF"} \/ (nx = "/" /\ At(s, e + 1) = ">")) -> 6
            [] ~inPara /\ t7 # 0 /\ IsBlankFrom(s, t7 + 1) -> 7
            [] OTHER -> 0

HtmlEnds(ty, s, i) ==
  CASE ty = 1 -> \E t \in {"</script>", "</pre>", "</style>", "</textarea>"} :
                    FindSub([k \in 1..Len(s) |-> LowerOf(s[k])], i, Chars(t)) # 0
    [] ty = 2 -> FindSub(s, i, <<"-", "-", ">">>) # 0
    [] ty = 3 -> FindSub(s, i, <<"?", ">">>) # 0
    [] ty = 4 -> FindSub(s, i, <<">">>) # 0
    [] OTHER -> FALSE

---------------------------------------------------------------------------
(* tables *)

RECURSIVE PipeEnd(_, _)
(* index of the next pipe that is not escaped (Len+1 if none) *)
PipeEnd(s, i) == IF i > Len(s) THEN Len(s) + 1
                 ELSE IF s[i] = "\\" THEN PipeEnd(s, i + 2)
                 ELSE IF s[i] = "|" THEN i ELSE PipeEnd(s, i + 1)

UnPipe(s) == FoldLeft(LAMBDA a, i : IF s[i] = "\\" /\ At(s, i + 1) = "|" /\ ~a.esc THEN [v |-> a.v, esc |-> FALSE]
                                    ELSE [v |-> Append(a.v, s[i]), esc |-> s[i] = "\\" /\ ~a.esc],
                      [v |-> <<>>, esc |-> FALSE], [i \in 1..Len(s) |-> i]).v

RECURSIVE CellsFrom(_, _)
CellsFrom(s, i) ==
  LET e == Min2(PipeEnd(s, i), Len(s) + 1) IN
  IF e > Len(s) THEN (IF IsBlankFrom(s, i) THEN <<>> ELSE <<UnPipe(Trim(From(s, i), Blank))>>)
  ELSE <<UnPipe(Trim(SubSeq(s, i, e - 1), Blank))>> \o CellsFrom(s, e + 1)

Cells(s) == LET t == Trim(s, Blank) IN CellsFrom(t, IF At(t, 1) = "|" THEN 2 ELSE 1)

AlignOf(c) == LET l == At(c, 1) = ":"  r == At(c, Len(c)) = ":" IN
              IF l /\ r THEN "center" ELSE IF l THEN "left" ELSE IF r THEN "right" ELSE "none"

IsDelimCell(c) ==
  LET a == IF At(c, 1) = ":" THEN 2 ELSE 1
      b == IF Len(c) >= 1 /\ c[Len(c)] = ":" THEN Len(c) - 1 ELSE Len(c)
  IN a <= b /\ \A k \in a..b : c[k] = "-"


IsDelimRow(s) == LET cs == Cells(s) IN cs # <<>> /\ (\E k \in 1..Len(s) : s[k] \in {"|", ":"}) /\ \A k \in 1..Len(cs) : IsDelimCell(cs[k])

---------------------------------------------------------------------------
(* link reference definitions (the converter never emits one on purpose) *)
DestEnd2(s, i) == LET e == DestEnd(s, i, 0) IN IF e = 0 THEN i ELSE e
IsRefDef(s) ==
  /\ At(s, 1) = "["
  /\ LET e == QuotedEnd(s, 2, "]") IN
     /\ e > 2 /\ At(s, e + 1) = ":"
     /\ \E k \in 2..e - 1 : s[k] \notin WsNl
     /\ ~\E k \in 2..e - 1 : s[k] = "[" /\ s[k - 1] # "\\"
     /\ LET d == Skip(s, e + 2, WsNl)
            z == IF At(s, d) = "<" THEN QuotedEnd(s, d + 1, ">") + 1 ELSE DestEnd2(s, d)
            n == Skip(s, z, Blank)
            q == At(s, n)
            te == IF q \in {"\"", "'", "("} THEN QuotedEnd(s, n + 1, IF q = "(" THEN ")" ELSE q) ELSE 0
            m == Skip(s, te + 1, Blank)
        IN /\ d <= Len(s) /\ z > d
           /\ \/ q \in {"EOF", "NL"}
              \/ n > z /\ te # 0 /\ At(s, m) \in {"EOF", "NL"}

---------------------------------------------------------------------------
(* closing *)

JoinLines(ls) == TrimR(Join(ls, <<"NL">>), Blank)

RECURSIVE DropBlankTail(_)
DropBlankTail(ls) == IF ls # <<>> /\ IsBlankFrom(ls[Len(ls)], 1) THEN DropBlankTail(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls

LeafEvent(lf) ==
  CASE lf.k = "p" -> LET s == JoinLines(lf.ls) IN
                     IF IsRefDef(s) THEN <<[e |-> "ref", s |-> s]>> ELSE <<[e |-> "para", s |-> s]>>
    [] lf.k = "f" -> <<[e |-> "code", info |-> lf.info, ls |-> lf.ls, f |-> <<lf.ch, lf.n>>]>>
    [] lf.k = "x" -> <<[e |-> "code", info |-> <<>>, ls |-> DropBlankTail(lf.ls), f |-> <<"indent", 4>>]>>
    [] lf.k = "h" -> <<[e |-> "html", s |-> Join(lf.ls, <<"NL">>)]>>
    [] lf.k = "t" -> <<[e |-> "table", al |-> lf.al, rows |-> lf.rows, raw |-> lf.raw]>>
    [] OTHER -> <<>>

CloseLeaf(st) == IF st.lf.k = "n" THEN st ELSE [st EXCEPT !.ev = @ \o LeafEvent(st.lf), !.lf = NoLeaf]

RECURSIVE CloseTo(_, _)
(* close the containers above index m *)
CloseTo(st, m) ==
  LET s == CloseLeaf(st) IN
  IF Len(s.ct) <= m THEN s
  ELSE CloseTo([s EXCEPT !.ev = Append(@, [e |-> "close", k |-> s.ct[Len(s.ct)].k]),
                         !.ct = SubSeq(@, 1, Len(@) - 1)], m)

(* close what the line did not match; a list that got no new item ends too *)
CloseUnmatched(st, m) ==
  LET k == IF m >= 1 /\ st.ct[m].k = "l" THEN m - 1 ELSE m IN
  IF k = Len(st.ct) THEN CloseLeaf(st) ELSE CloseTo(st, k)

MarkUsed(ct) == [i \in 1..Len(ct) |-> IF ct[i].k = "i" THEN [ct[i] EXCEPT !.e = FALSE] ELSE ct[i]]

Push(st, c, ev) == [st EXCEPT !.ct = Append(MarkUsed(@), c), !.ev = Append(@, ev)]
Leaf(st, lf) == [st EXCEPT !.lf = lf, !.ct = MarkUsed(@)]
Emit(st, ev) == [st EXCEPT !.ev = Append(@, ev), !.ct = MarkUsed(@)]

---------------------------------------------------------------------------
(* matching the open containers *)

RECURSIVE Match(_, _, _, _)
Match(ct, k, s, i) ==
  IF k > Len(ct) THEN [m |-> Len(ct), s |-> s, i |-> i]
  ELSE LET c == ct[k]
           j == Skip(s, i, Blank)
           stop == [m |-> k - 1, s |-> s, i |-> i]
       IN CASE c.k = "q" ->
                 IF Indent(s, i) <= 3 /\ At(s, j) = ">"
                 THEN LET t == TakeCols(s, j + 1, 1) IN Match(ct, k + 1, t.s, t.i)
                 ELSE stop
            [] c.k = "l" -> Match(ct, k + 1, s, i)
            [] OTHER ->
                 IF j > Len(s) /\ c.e THEN stop
                 ELSE IF Indent(s, i) >= c.w THEN LET t == TakeCols(s, i, c.w) IN Match(ct, k + 1, t.s, t.i)
                 ELSE IF j > Len(s) THEN Match(ct, k + 1, s, j)
                 ELSE stop

---------------------------------------------------------------------------
(* the rest of a line after the containers and block starts *)

StartPara(st, s, i) == Leaf(st, [k |-> "p", ls |-> <<TrimL(From(s, i), Blank)>>])

TryTable(st, line, ext) ==
  LET ls == st.lf.ls
      hd == ls[Len(ls)]
      cs == Cells(line)
  IN IF "T" \in ext /\ IsDelimRow(line) /\ Len(Cells(hd)) = Len(cs)
     THEN LET before == SubSeq(ls, 1, Len(ls) - 1)
              ev == IF before = <<>> THEN <<>> ELSE <<[e |-> "para", s |-> JoinLines(before)]>>
          IN [st EXCEPT !.ev = @ \o ev,
                        !.lf = [k |-> "t", al |-> [c \in 1..Len(cs) |-> AlignOf(cs[c])],
                                rows |-> <<Cells(hd)>>, raw |-> <<hd, line>>]]
     ELSE [st EXCEPT !.lf.ls = Append(@, line)]

Rest(st, m, s, i, opened, ext) ==
  LET all == m = Len(st.ct)
      blank == IsBlankFrom(s, i)
  IN IF blank
     THEN IF all /\ st.lf.k = "x" THEN [st EXCEPT !.lf.ls = Append(@, From(TakeCols(s, i, 4).s, TakeCols(s, i, 4).i))]
          ELSE IF all THEN CloseLeaf(st)
          ELSE IF m >= 1 /\ st.ct[m].k = "l" THEN CloseTo(st, m)
          ELSE CloseUnmatched(st, m)
     ELSE IF st.lf.k = "p" /\ ~all /\ ~opened THEN [st EXCEPT !.lf.ls = Append(@, TrimL(From(s, i), Blank))]
     ELSE IF all /\ st.lf.k = "p" THEN TryTable(st, TrimL(From(s, i), Blank), ext)
     ELSE IF all /\ st.lf.k = "t" THEN [st EXCEPT !.lf.rows = Append(@, Cells(From(s, i))), !.lf.raw = Append(@, TrimL(From(s, i), Blank))]
     ELSE StartPara(CloseUnmatched(st, m), s, i)

RECURSIVE Open(_, _, _, _, _, _)
Open(st, m, s, i, opened, ext) ==
  LET all  == m = Len(st.ct)
      ind  == Indent(s, i)
      j    == Skip(s, i, Blank)
      c    == At(s, j)
      para == all /\ st.lf.k = "p"
      mk   == Marker(s, j)
      hk   == HtmlKind(s, j, st.lf.k = "p")
      lvl  == AtxLevel(s, j)
      fl   == FenceLen(s, j)
  IN
  IF j > Len(s) THEN Rest(st, m, s, i, opened, ext)
  ELSE IF ind >= 4
  THEN IF st.lf.k = "p" /\ (all \/ ~opened) THEN Rest(st, m, s, i, opened, ext)
       ELSE LET t == TakeCols(s, i, 4)  x == From(t.s, t.i) IN
            IF all /\ st.lf.k = "x" THEN [st EXCEPT !.lf.ls = Append(@, x)]
            ELSE IF all /\ st.lf.k = "t" THEN Rest(st, m, s, i, opened, ext)
            ELSE Leaf(CloseUnmatched(st, m), [k |-> "x", ls |-> <<x>>])
  ELSE IF c = ">"
  THEN LET t == TakeCols(s, j + 1, 1)
           n == Push(CloseUnmatched(st, m), [k |-> "q"], [e |-> "open", k |-> "q"])
       IN Open(n, Len(n.ct), t.s, t.i, TRUE, ext)
  ELSE IF lvl > 0
  THEN Emit(CloseUnmatched(st, m), [e |-> "head", n |-> lvl, s |-> AtxContent(s, j, lvl), st |-> "atx"])
  ELSE IF fl > 0
  THEN Leaf(CloseUnmatched(st, m), [k |-> "f", ch |-> c, n |-> fl, ind |-> ind,
            info |-> Unescape(Trim(From(s, j + fl), Blank)), ls |-> <<>>])
  ELSE IF hk > 0
  THEN LET n == Leaf(CloseUnmatched(st, m), [k |-> "h", ty |-> hk, ls |-> <<From(s, i)>>])
       IN IF HtmlEnds(hk, s, IF hk = 2 THEN j + 4 ELSE j + 1) THEN CloseLeaf(n) ELSE n
  ELSE IF para /\ IsSetext(s, j) /\ ~IsRefDef(JoinLines(st.lf.ls))
  THEN [st EXCEPT !.lf = NoLeaf,
                  !.ev = Append(@, [e |-> "head", n |-> IF c = "=" THEN 1 ELSE 2, s |-> JoinLines(st.lf.ls), st |-> "setext"])]
  ELSE IF IsThematic(s, j)
  THEN Emit(CloseUnmatched(st, m), [e |-> "hr", s |-> From(s, i)])
  ELSE IF mk.w > 0 /\ ~(para /\ (IsBlankFrom(s, j + mk.w) \/ (mk.o /\ mk.n # 1)))
  THEN LET a    == j + mk.w
           empty == IsBlankFrom(s, a)
           sp   == IF empty THEN 1 ELSE IF Indent(s, a) >= 5 THEN 1 ELSE Indent(s, a)
           t    == TakeCols(s, a, sp)
           same == m >= 1 /\ st.ct[m].k = "l" /\ st.ct[m].o = mk.o /\ st.ct[m].d = mk.d
           base == IF same THEN CloseTo(st, m)
                   ELSE Push(CloseUnmatched(st, m), [k |-> "l", o |-> mk.o, d |-> mk.d],
                             [e |-> "open", k |-> "l", o |-> mk.o, d |-> mk.d, n |-> mk.n])
           n    == Push(base, [k |-> "i", w |-> ind + mk.w + sp, e |-> empty], [e |-> "open", k |-> "i", w |-> ind + mk.w + sp])
       IN IF empty THEN n ELSE Open(n, Len(n.ct), t.s, t.i, TRUE, ext)
  ELSE Rest(st, m, s, i, opened, ext)

---------------------------------------------------------------------------
(* one line *)
BlockLine(st, line, ext) ==
  LET r   == Match(st.ct, 1, line, 1)
      all == r.m = Len(st.ct)
      j   == Skip(r.s, r.i, Blank)
  IN CASE all /\ st.lf.k = "f" ->
            LET e == Skip(r.s, j, {st.lf.ch}) IN
            IF Indent(r.s, r.i) <= 3 /\ e - j >= st.lf.n /\ IsBlankFrom(r.s, e)
            THEN CloseLeaf(st)
            ELSE LET t == TakeCols(r.s, r.i, Min2(st.lf.ind, Indent(r.s, r.i))) IN
                 [st EXCEPT !.lf.ls = Append(@, From(t.s, t.i))]
       [] all /\ st.lf.k = "h" /\ ~(st.lf.ty >= 6 /\ j > Len(r.s)) ->
            LET n == [st EXCEPT !.lf.ls = Append(@, From(r.s, r.i))]
            IN IF HtmlEnds(st.lf.ty, r.s, r.i) THEN CloseLeaf(n) ELSE n
       [] OTHER -> Open(st, r.m, r.s, r.i, FALSE, ext)

BlockEnd(st) == CloseTo(st, 0).ev

Blocks(lines, ext) == BlockEnd(FoldLeft(LAMBDA st, l : BlockLine(st, l, ext), BlockInit, lines))
============================================================================
