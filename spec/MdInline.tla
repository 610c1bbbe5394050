------------------------------ MODULE MdInline -----------------------------
(* The inline level of the CommonMark 0.31 reader (plus GFM strikethrough): *)
(* what a reader of the generated Markdown sees inside of one leaf block.   *)
(*                                                                          *)
(* Inline(s, ext) maps the characters of a leaf block to                    *)
(*   at : the visible atoms [c, s, l]: character, set of styles, link number *)
(*   lk : the links and images in order of their opening bracket            *)
(*   dl : the delimiter strings that were used, as pairs <<style, char>>    *)
EXTENDS MdChars

---------------------------------------------------------------------------
(* raw html and autolinks *)

AttrNameStart == Letters \cup {"_", ":"}
AttrNameChar  == AlphaNum \cup {"_", ".", ":", "-"}
WsNl == {" ", "TAB", "NL"}

RECURSIVE AttrsEnd(_, _)
(* index of the closing ">" of an open tag whose attributes start at i; 0 if it is none *)
AttrsEnd(s, i) ==
  LET j == Skip(s, i, WsNl) IN
  CASE At(s, j) = ">" -> j
    [] At(s, j) = "/" -> IF At(s, j + 1) = ">" THEN j + 1 ELSE 0
    [] j = i -> 0
    [] At(s, j) \in AttrNameStart ->
         LET e == Skip(s, j, AttrNameChar)
             w == Skip(s, e, WsNl)
         IN IF At(s, w) # "=" THEN AttrsEnd(s, e)
            ELSE LET v == Skip(s, w + 1, WsNl) IN
                 CASE At(s, v) = "\"" -> LET q == Find(s, v + 1, {"\""}) IN IF q > Len(s) THEN 0 ELSE AttrsEnd(s, q + 1)
                   [] At(s, v) = "'" -> LET q == Find(s, v + 1, {"'"}) IN IF q > Len(s) THEN 0 ELSE AttrsEnd(s, q + 1)
                   [] OTHER -> LET q == Find(s, v, WsNl \cup {"\"", "'", "=", "<", ">", "`"}) IN IF q = v THEN 0 ELSE AttrsEnd(s, q)
    [] OTHER -> 0

(* end of the html tag, comment, instruction or declaration starting with "<" at i; 0 if none *)
HtmlEnd(s, i) ==
  LET c == At(s, i + 1) IN
  CASE c \in Letters -> AttrsEnd(s, Skip(s, i + 1, AlphaNum \cup {"-"}))
    [] c = "/" -> IF At(s, i + 2) \notin Letters THEN 0
                  ELSE LET e == Skip(s, Skip(s, i + 2, AlphaNum \cup {"-"}), WsNl) IN IF At(s, e) = ">" THEN e ELSE 0
    [] c = "?" -> LET e == FindSub(s, i + 2, <<"?", ">">>) IN IF e = 0 THEN 0 ELSE e + 1
    [] c = "!" -> IF At(s, i + 2) = "-" /\ At(s, i + 3) = "-"
                  THEN LET e == FindSub(s, i + 4, <<"-", "-", ">">>) IN
                       IF At(s, i + 4) = ">" THEN i + 4 ELSE IF e = 0 THEN 0 ELSE e + 2
                  ELSE IF At(s, i + 2) \in Letters
                  THEN LET e == Find(s, i + 2, {">"}) IN IF e > Len(s) THEN 0 ELSE e
                  ELSE 0
    [] OTHER -> 0

SchemeChar == AlphaNum \cup {"+", ".", "-"}
AutoEnd(s, i) ==
  IF At(s, i + 1) \notin AlphaNum THEN 0
  ELSE LET e == Skip(s, i + 1, SchemeChar)
           q == Find(s, e, {" ", "TAB", "NL", "<", ">"})
           m == Skip(s, i + 1, AlphaNum \cup {".", "!", "#", "$", "%", "&", "'", "*", "+", "/", "=", "?", "^", "_", "`", "{", "|", "}", "~", "-"})
           n == Skip(s, m + 1, AlphaNum \cup {".", "-"})
       IN CASE At(s, e) = ":" /\ e - i >= 3 /\ e - i <= 33 /\ s[i + 1] \in Letters /\ At(s, q) = ">" -> q
            [] At(s, m) = "@" /\ n > m + 1 /\ At(s, n) = ">" -> n
            [] OTHER -> 0

---------------------------------------------------------------------------
(* character references; only the ones the converter itself can emit *)
Entities == << <<Chars("&lt;"), "<">>, <<Chars("&gt;"), ">">>, <<Chars("&amp;"), "&">>,
               <<Chars("&quot;"), "\"">>, <<Chars("&#39;"), "'">>, <<Chars("&#34;"), "\"">>,
               <<Chars("&nbsp;"), "NBSP">> >>
EntityAt(s, i) ==
  LET M == {k \in 1..Len(Entities) : PrefixAt(s, i, Entities[k][1])} IN
  IF M = {} THEN [n |-> 0, c |-> ""] ELSE LET k == CHOOSE k \in M : TRUE IN [n |-> Len(Entities[k][1]), c |-> Entities[k][2]]

(* resolves backslash escapes and character references of a destination or title *)
Unescape(s) ==
  FoldLeft(LAMBDA st, i :
     IF i < st.nx THEN st
     ELSE IF s[i] = "\\" /\ At(s, i + 1) \in AsciiPunct
          THEN [nx |-> i + 2, v |-> Append(st.v, s[i + 1])]
     ELSE IF s[i] = "&"
          THEN LET e == EntityAt(s, i) IN IF e.n = 0 THEN [nx |-> i + 1, v |-> Append(st.v, "&")]
                                          ELSE [nx |-> i + e.n, v |-> Append(st.v, e.c)]
     ELSE [nx |-> i + 1, v |-> Append(st.v, s[i])],
     [nx |-> 1, v |-> <<>>], [i \in 1..Len(s) |-> i]).v

---------------------------------------------------------------------------
(* the tail of an inline link: "(" destination title ")" *)

RECURSIVE DestEnd(_, _, _)
(* first index after a destination without angle brackets *)
DestEnd(s, i, depth) ==
  LET c == At(s, i) IN
  CASE c = "EOF" \/ c \in WsNl -> IF depth = 0 THEN i ELSE 0
    [] c = "\\" /\ At(s, i + 1) \in AsciiPunct -> DestEnd(s, i + 2, depth)
    [] c = "(" -> DestEnd(s, i + 1, depth + 1)
    [] c = ")" -> IF depth = 0 THEN i ELSE DestEnd(s, i + 1, depth - 1)
    [] OTHER -> DestEnd(s, i + 1, depth)

RECURSIVE QuotedEnd(_, _, _)
(* index of the closing character q, skipping backslash escapes; 0 if none *)
QuotedEnd(s, i, q) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] = "\\" /\ At(s, i + 1) \in AsciiPunct THEN QuotedEnd(s, i + 2, q)
  ELSE IF s[i] = q THEN i
  ELSE IF q = ")" /\ s[i] = "(" THEN 0
  ELSE IF q = ">" /\ s[i] \in {"<", "NL"} THEN 0
  ELSE QuotedEnd(s, i + 1, q)

NoTail == [ok |-> FALSE, nx |-> 0, dest |-> <<>>, title |-> <<>>, q |-> ""]

LinkTail(s, i) ==
  IF At(s, i) # "(" THEN NoTail
  ELSE LET j  == Skip(s, i + 1, WsNl)
           ang == At(s, j) = "<"
           qe == IF ang THEN QuotedEnd(s, j + 1, ">") ELSE 0
           de == IF ang THEN (IF qe = 0 THEN 0 ELSE qe + 1) ELSE DestEnd(s, j, 0)
       IN IF de = 0 THEN NoTail
          ELSE LET d == IF ang THEN SubSeq(s, j + 1, qe - 1) ELSE SubSeq(s, j, de - 1)
                   k == Skip(s, de, WsNl)
                   t == At(s, k)
               IN CASE t = ")" -> [ok |-> TRUE, nx |-> k + 1, dest |-> Unescape(d), title |-> <<>>, q |-> ""]
                    [] k > de /\ t \in {"\"", "'", "("} ->
                         LET te == QuotedEnd(s, k + 1, IF t = "(" THEN ")" ELSE t)
                         IN IF te = 0 THEN NoTail
                            ELSE LET z == Skip(s, te + 1, WsNl) IN
                                 IF At(s, z) = ")"
                                 THEN [ok |-> TRUE, nx |-> z + 1, dest |-> Unescape(d), title |-> Unescape(SubSeq(s, k + 1, te - 1)), q |-> t]
                                 ELSE NoTail
                    [] OTHER -> NoTail

---------------------------------------------------------------------------
(* emphasis: the delimiter algorithm *)

RunLen(d) == d.hi - d.lo + 1

CanMatch(op, cl) ==
  /\ op.a /\ op.o /\ op.ch = cl.ch /\ op.lo <= op.hi
  /\ IF cl.ch = "~" THEN op.n0 = cl.n0 /\ cl.n0 <= 2
     ELSE \/ ~(op.c \/ cl.o)
          \/ (op.n0 + cl.n0) % 3 # 0
          \/ (op.n0 % 3 = 0 /\ cl.n0 % 3 = 0)

RECURSIVE LastMatch(_, _, _, _)
LastMatch(ds, i, b, cl) == IF i <= b THEN 0 ELSE IF CanMatch(ds[i], cl) THEN i ELSE LastMatch(ds, i - 1, b, cl)

RECURSIVE Emph(_, _, _)
Emph(e, ci, b) ==
  IF ci > Len(e.ds) THEN e
  ELSE LET cl == e.ds[ci] IN
    IF ~cl.c \/ ~cl.a \/ cl.lo > cl.hi THEN Emph(e, ci + 1, b)
    ELSE LET oi == LastMatch(e.ds, ci - 1, b, cl) IN
      IF oi = 0 THEN Emph(IF cl.o THEN e ELSE [e EXCEPT !.ds[ci].a = FALSE], ci + 1, b)
      ELSE LET op  == e.ds[oi]
               use == IF cl.ch = "~" THEN RunLen(op) ELSE IF RunLen(op) >= 2 /\ RunLen(cl) >= 2 THEN 2 ELSE 1
               k   == IF cl.ch = "~" THEN "S" ELSE IF use = 2 THEN "B" ELSE "I"
               lo  == op.hi - use + 1
               hi  == cl.lo + use - 1
               e2  == [ds |-> [j \in 1..Len(e.ds) |->
                                 IF j > oi /\ j < ci THEN [e.ds[j] EXCEPT !.a = FALSE]
                                 ELSE IF j = oi THEN [op EXCEPT !.hi = @ - use]
                                 ELSE IF j = ci THEN [cl EXCEPT !.lo = @ + use]
                                 ELSE e.ds[j]],
                       rg |-> Append(e.rg, [k |-> k, a |-> op.hi, b |-> cl.lo, d |-> cl.ch, n |-> use]),
                       rm |-> e.rm \cup (lo..op.hi) \cup (cl.lo..hi)]
           IN Emph(e2, ci, b)

RunOf(s, i, j, tlo) ==
  LET ch == s[i]
      b  == IF i = 1 THEN "NL" ELSE s[i - 1]
      a  == IF j = Len(s) THEN "NL" ELSE s[j + 1]
      bw == b \in UniWhite   aw == a \in UniWhite
      bp == b \in UniPunct   ap == a \in UniPunct
      lf == ~aw /\ (~ap \/ bw \/ bp)
      rf == ~bw /\ (~bp \/ aw \/ ap)
  IN [ch |-> ch, lo |-> tlo, hi |-> tlo + (j - i), n0 |-> j - i + 1, a |-> TRUE,
      o |-> IF ch = "_" THEN lf /\ (~rf \/ bp) ELSE lf,
      c |-> IF ch = "_" THEN rf /\ (~lf \/ ap) ELSE rf]

---------------------------------------------------------------------------
(* the scanner *)

Tok(k, c) == [k |-> k, c |-> c, x |-> <<>>]

RECURSIVE TickEnd(_, _, _)
(* start of the next run of exactly n backticks; 0 if there is none *)
TickEnd(s, i, n) ==
  LET a == Find(s, i, {"`"}) IN
  IF a > Len(s) THEN 0
  ELSE LET e == Skip(s, a, {"`"}) IN IF e - a = n THEN a ELSE TickEnd(s, e, n)

CodeContent(s) ==
  LET t == [i \in 1..Len(s) |-> IF s[i] = "NL" THEN " " ELSE s[i]]
  IN IF Len(t) >= 2 /\ t[1] = " " /\ t[Len(t)] = " " /\ (\E i \in 1..Len(t) : t[i] # " ")
     THEN SubSeq(t, 2, Len(t) - 1) ELSE t

Lit(st, c, nx) == [st EXCEPT !.nx = nx, !.tk = Append(@, Tok("c", c))]
Lits(st, cs, nx) == [st EXCEPT !.nx = nx, !.tk = @ \o [i \in 1..Len(cs) |-> Tok("c", cs[i])]]

CloseBracket(st, s, i) ==
  IF st.br = <<>> THEN Lit(st, "]", i + 1)
  ELSE LET top == st.br[Len(st.br)]
           rest == SubSeq(st.br, 1, Len(st.br) - 1)
           t == IF top.act THEN LinkTail(s, i + 1) ELSE NoTail
       IN IF ~t.ok THEN Lit([st EXCEPT !.br = rest], "]", i + 1)
          ELSE LET e  == Emph([ds |-> st.ds, rg |-> st.rg, rm |-> st.rm], top.dl + 1, top.dl)
                   ti == Len(st.tk) + 1
               IN [st EXCEPT
                     !.nx = t.nx,
                     !.tk = Append(@, Tok("rb", "]")),
                     !.ds = SubSeq(e.ds, 1, top.dl),
                     !.rg = Append(e.rg, [k |-> IF top.im THEN "M" ELSE "L", a |-> top.ti, b |-> ti,
                                          d |-> t.q, n |-> 0, dest |-> t.dest, title |-> t.title]),
                     !.rm = e.rm \cup {top.ti, ti},
                     !.br = IF top.im THEN rest
                            ELSE [j \in 1..Len(rest) |-> IF rest[j].im THEN rest[j] ELSE [rest[j] EXCEPT !.act = FALSE]]]

Step(st, s, i, ext) ==
  IF i < st.nx THEN st
  ELSE LET c == s[i] IN
    CASE c = "\\" /\ At(s, i + 1) \in AsciiPunct -> Lit(st, s[i + 1], i + 2)
      [] c = "\\" /\ At(s, i + 1) = "NL" ->
           [st EXCEPT !.nx = Skip(s, i + 2, Blank), !.tk = Append(@, Tok("br", "BR"))]
      [] c = "&" -> LET e == EntityAt(s, i) IN IF e.n = 0 THEN Lit(st, "&", i + 1) ELSE Lit(st, e.c, i + e.n)
      [] c = "`" ->
           LET e == Skip(s, i, {"`"})
               z == TickEnd(s, e, e - i)
           IN IF z = 0 THEN Lits(st, SubSeq(s, i, e - 1), e)
              ELSE [st EXCEPT !.nx = z + (e - i),
                              !.tk = Append(@, [k |-> "code", c |-> "", x |-> CodeContent(SubSeq(s, e, z - 1))])]
      [] c = "*" \/ c = "_" \/ (c = "~" /\ "S" \in ext) ->
           LET e == Skip(s, i, {c}) IN
             IF c = "~" /\ e - i > 2 THEN Lits(st, SubSeq(s, i, e - 1), e)
             ELSE [st EXCEPT !.nx = e,
                             !.tk = @ \o [k \in 1..(e - i) |-> Tok("d", c)],
                             !.ds = Append(@, RunOf(s, i, e - 1, Len(st.tk) + 1))]
      [] c = "[" -> [st EXCEPT !.nx = i + 1, !.tk = Append(@, Tok("c", "[")),
                               !.br = Append(@, [ti |-> Len(st.tk) + 1, im |-> FALSE, act |-> TRUE, dl |-> Len(st.ds)])]
      [] c = "!" /\ At(s, i + 1) = "[" ->
           [st EXCEPT !.nx = i + 2, !.tk = Append(@, [k |-> "ib", c |-> "", x |-> <<"!", "[">>]),
                      !.br = Append(@, [ti |-> Len(st.tk) + 1, im |-> TRUE, act |-> TRUE, dl |-> Len(st.ds)])]
      [] c = "]" -> CloseBracket(st, s, i)
      [] c = "<" ->
           LET a == AutoEnd(s, i) IN
           IF a # 0 THEN [st EXCEPT !.nx = a + 1, !.tk = Append(@, [k |-> "auto", c |-> "", x |-> SubSeq(s, i + 1, a - 1)])]
           ELSE LET h == HtmlEnd(s, i) IN
                IF h = 0 THEN Lit(st, "<", i + 1)
                ELSE [st EXCEPT !.nx = h + 1, !.tk = Append(@, [k |-> "html", c |-> "", x |-> SubSeq(s, i, h)])]
      [] c = "NL" ->
           LET n  == Len(st.tk)
               b  == n >= 2 /\ st.tk[n] = Tok("c", " ") /\ st.tk[n - 1] = Tok("c", " ") /\ At(s, i - 1) = " " /\ At(s, i - 2) = " "
           IN [st EXCEPT !.nx = Skip(s, i + 1, Blank), !.tk = Append(@, IF b THEN Tok("br", "BR") ELSE Tok("c", " "))]
      [] OTHER -> Lit(st, c, i + 1)

Scan(s, ext) ==
  LET st == FoldLeft(LAMBDA a, i : Step(a, s, i, ext),
                     [nx |-> 1, tk |-> <<>>, br |-> <<>>, ds |-> <<>>, rg |-> <<>>, rm |-> {}],
                     [i \in 1..Len(s) |-> i])
      e  == Emph([ds |-> st.ds, rg |-> st.rg, rm |-> st.rm], 1, 0)
  IN [tk |-> st.tk, rg |-> e.rg, rm |-> e.rm]

---------------------------------------------------------------------------
(* from tokens to atoms *)

Atom(c, s, l) == [c |-> c, s |-> s, l |-> l]
IsSpaceAtom(a) == a.c = " "
SpaceAtom == Atom(" ", {}, 0)

(* Whitespace collapses and has no style; breaks swallow the spaces around  *)
(* them; leading and trailing spaces and breaks disappear.                  *)
Normal(at) ==
  LET o == FoldLeft(LAMBDA acc, a :
        LET n == Len(acc) IN
        IF a.c \in {" ", "NL", "TAB", "CR", "FF"}
        THEN IF n = 0 \/ acc[n].c \in {" ", "BR"} THEN acc ELSE Append(acc, SpaceAtom)
        ELSE IF a.c = "BR"
        THEN LET m == IF n > 0 /\ acc[n].c = " " THEN SubSeq(acc, 1, n - 1) ELSE acc
             IN IF m = <<>> THEN m ELSE Append(m, Atom("BR", {}, 0))
        ELSE IF a.c = "NBSP" THEN Append(acc, Atom("NBSP", {}, 0))
        ELSE Append(acc, a), <<>>, at)
      RECURSIVE Cut(_)
      Cut(n) == IF n > 0 /\ o[n].c \in {" ", "BR"} THEN Cut(n - 1) ELSE n
  IN SubSeq(o, 1, Cut(Len(o)))

AddAtoms(acc, cs, sty, l) == acc \o [i \in 1..Len(cs) |-> Atom(cs[i], sty, l)]

BrTag(x) == LET t == Trim(SubSeq(x, 2, Len(x) - 1), {" ", "/"}) IN t = <<"b", "r">>

Inline(s, ext) ==
  LET r   == Scan(s, ext)
      R   == {r.rg[i] : i \in 1..Len(r.rg)}
      LR  == {g \in R : g.k \in {"L", "M"}}
      Num(g) == Cardinality({h \in LR : h.a <= g.a})
      Sty(i) == {g.k : g \in {h \in R : h.k \in {"B", "I", "S"} /\ h.a < i /\ i < h.b}}
      Lnk(i) == LET Q == {h \in LR : h.k = "L" /\ h.a <= i /\ i <= h.b} IN IF Q = {} THEN 0 ELSE Num(CHOOSE g \in Q : TRUE)
      InImg(i) == \E h \in LR : h.k = "M" /\ h.a <= i /\ i <= h.b
      Text(t) == CASE t.k \in {"c", "d"} -> <<t.c>>
                   [] t.k = "ib" -> t.x
                   [] t.k = "code" -> t.x
                   [] OTHER -> <<>>
      Alt(g) == Concat([i \in 1..(g.b - g.a - 1) |-> IF g.a + i \in r.rm THEN <<>> ELSE Text(r.tk[g.a + i])])
      at  == FoldLeft(LAMBDA acc, i :
               LET t == r.tk[i] IN
               IF InImg(i)
               THEN LET Q == {g \in LR : g.k = "M" /\ g.a = i} IN
                    IF Q = {} \/ \E g \in LR : g.k = "M" /\ g.a < i /\ i < g.b THEN acc
                    ELSE Append(acc, Atom("IMG", Sty(i), Num(CHOOSE g \in Q : TRUE)))
               ELSE IF i \in r.rm THEN acc
               ELSE CASE t.k = "c" -> Append(acc, Atom(t.c, Sty(i), Lnk(i)))
                      [] t.k = "d" -> Append(acc, Atom(t.c, Sty(i), Lnk(i)))
                      [] t.k = "ib" -> AddAtoms(acc, t.x, Sty(i), Lnk(i))
                      [] t.k = "code" -> AddAtoms(acc, t.x, Sty(i) \cup {"C"}, Lnk(i))
                      [] t.k = "br" -> Append(acc, Atom("BR", {}, 0))
                      [] t.k = "auto" -> AddAtoms(acc, t.x, Sty(i) \cup {"AUTO"}, Lnk(i))
                      [] t.k = "html" -> IF BrTag(t.x) THEN Append(acc, Atom("BR", {}, 0))
                                         ELSE IF PrefixAt(t.x, 1, Chars("<!--")) THEN acc
                                         ELSE AddAtoms(acc, t.x, Sty(i) \cup {"HTML"}, Lnk(i))
                      [] OTHER -> acc,
             <<>>, [i \in 1..Len(r.tk) |-> i])
      ordered == SortSeq(SetToSeq(LR), LAMBDA g, h : g.a < h.a)
  IN [at |-> Normal(at),
      lk |-> [i \in 1..Len(ordered) |->
                LET g == ordered[i] IN [im |-> g.k = "M", dest |-> g.dest, title |-> g.title,
                                        alt |-> IF g.k = "M" THEN Alt(g) ELSE <<>>]],
      dl |-> {<<g.k, g.d, g.n>> : g \in {h \in R : h.k \in {"B", "I", "S"}}}]
============================================================================
