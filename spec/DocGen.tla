------------------------------- MODULE DocGen ------------------------------
(* Generates HTML documents: each behaviour builds one document, token by   *)
(* token, and prints it.  Run with `tlc -simulate`.                         *)
(*                                                                          *)
(* The documents stay inside of what Markdown can express: neighbouring     *)
(* inline elements are separated by whitespace (or glued to plain letters), *)
(* code elements contain only text, links contain no links.                 *)
EXTENDS DocModel, Json

CONSTANTS Profile,   \* which menu and vocabulary to use
          MaxTok,    \* the size of a document
          MaxDepth   \* how deep elements are nested

VARIABLES toks,   \* the document so far
          stk,    \* names of the open elements
          mode,   \* what to do next
          acc,    \* text being assembled
          sep,    \* is there whitespace (or the start of the block) to the left?
          cfg, rnd,
          wt      \* which entry of the menu was picked (gives the entries their weight)
vars == <<toks, stk, mode, acc, sep, cfg, rnd, wt>>

W(s) == Chars(s)

PlainWords == << W("a"), W("bc"), W("x1"), W("dog"), W("2"), W("Zed"), W("é"), W("m n"), W("e.g."), W("3.5"), W("co"), W("the"), <<"a", "NBSP", "b">> >>
SpecialWords == << W("*"), W("_"), W("**"), W("__x__"), W("#"), W("##"), W("-"), W("---"), W("+"), W("1."), W("12)"),
   W("="), W("==="), W(">"), W("<"), W("`"), W("```"), W("~"), W("~~"), W("~~~"), W("["), W("]"), W("[x]"), W("[k](u)"),
   W("!"), W("![z]"), W("("), W(")"), W("\\"), W("\\\\"), W("|"), W("| -"), W(":"), W(":-:"), W("\"q\""), W("'r'"), W("$"),
   W("*a*"), W("_b_"), W("a_b"), W("a*b"), W("<b>"), W("</p>"), W("<!-- c"), W("-->"), W("{"), W("}"), W("^"), W("@"), W("%"),
   W("/"), W(","), W(";"), W("?"), W("[f]: /u"), W("* * *"), W("- - -"), W("_ _ _"), W("t|u"), W("!["), W("]("), W("0."), W("- x"), W("+ y"), W("* z"),
   W("1. w"), W("> v"), W("# h"), W("A&B"), W("\\*"), W("`c`"), W("``"), W("~d~"), W("~~e~~"), W("2)"), W("a\\"), W("a](/b)"), W("k]: /u"), W("]]]"), W("2021."), W("1999) x"), W("10."), W("123456789."), W("1234567890."), W("000)") >>
LinkWords == << W("]"), W("a]b]c]d"), W("[k]"), W("]["), W("[["), W("](x)"), W("!["), W("\\") >>
Words == CASE Profile \in {"esc", "escraw"} -> SpecialWords \o PlainWords \o PlainWords
           [] Profile = "link" -> PlainWords \o PlainWords \o LinkWords
           [] Profile = "mixed" -> PlainWords \o PlainWords \o PlainWords \o SpecialWords
           [] OTHER -> PlainWords

Spaces == << <<" ">>, <<" ">>, <<" ">>, <<"NL">>, <<" ", " ">>, <<"TAB">>, <<"NL", " ", " ">>, <<" ", "NL">>, <<"CR", "NL">>, <<"CR", "CR">> >>

CodeWords == << W("x"), <<>>, W("```"), W("~~~"), W("- a"), W("# b"), W("> c"), W("`"), W("````"), W("~~~~~"), W("if (a < b && c) {"), W("}"),
   W("**b**"), W("[l](u)"), W("1. y"), W("\\n"), W("<div>"), W("&amp;"), W("```go"), W("* * *"), W("|a|b|"), W("|-|-|"), W("===") , W("\\*"), W("end"), W("</p>"), W("é"),
   W("~~~ `"), W("``` ~"), <<"`", "`", "`", "`", "TAB">>, <<"~", "~", "~", "~", "TAB", "x">>, W("`````"), W("~~~~ ~~~~"), <<"`", "TAB", "x">>, W("a\\"), W("!"), W("_x_"), W("$y$"), <<"a", "CR", "b">>, <<"#", "CR", "CR">>, <<"x", "CR", "NL", "-", " ", "y">>, <<"a", "NBSP", "NBSP", "b", "NBSP">> >>
InlineCodeWords == << W("x"), W("a b"), W("`"), W("``"), W("y`z"), W("*b*"), W("\\"), W("<i>"), W("[l](u)"), W("```"), W("p|q"), W("f()"), W("#"), W("é"), W("&lt;"), W("n_m"), <<"a", "CR", "CR", "b">>, <<"a", "NL", "NL", "b">>, <<"a", "CR", "#", " ", "b">>,
   <<"a", "NBSP", "b">>, <<"NBSP", "x", "NBSP">>, <<"a", "NBSP", "NBSP", "b">>, <<"a", " ", " ", "b">>, <<" ", "a", "TAB", "b", " ">> >>
Indents == << <<>>, <<>>, W(" "), W("  "), W("    "), <<"TAB">>, W("   ") >>
Langs == << <<>>, <<>>, W("language-go"), W("lang-js"), W("language-c++"), W("hl language-sh x"), W("foo"),
   W("hl") \o <<"TAB">> \o W("language-go") \o <<"NL">> \o W("lang-x"), W("language-`a`b"), W("language-a_b*c"),
   W("language-c--"), W("lang-objective-c"), W("language--x"), W("language-F#"), W("LANGUAGE-go lang-é"), W("language-a_very-long.language+name/with;many:chars{1,2}"), W("language-lang-y") >>

Hrefs == << W("/l"), W("https://e.com/p?q=1#f"), W("/a_b*c"), W("/p(1)"), W("/s p"), W("/é"), W("#frag"), W("mailto:a@b.c"), W("/x%20y"), W("rel/u.html"),
            W("/a[b]"), W("/q\"r"), W("/b\\c"), W("/lt<gt>"), W("/pa)ren"), W("/pa(ren"), W("/tick`s"), W("/t~d"), W(" /trim "), W("/at@x"), W("https://e.com/?a=1&b=2&a=3"),
            W("/semi;x"), W("/hash#a_b"), W("/bang!"), W("/q?x=(y)"), W("/pipe|x"), W("/caret^"), W("//h.io/z"), W("/eq=1"), W("/a'b"), W("/$1"), W("/a+b"), W("/a,b"), W("#"), W("/"), W("."), W("?k") >>
Titles == << <<>>, <<>>, W("t"), W("two words"), W("it's"), W("say \"hi\""), W("\"it's\""), W("b\\s"), W("end\\"), W("a)b"), W("(p)"), W("<x>"), W("[k]"), W("*s*"), <<"a", "NL", "b">>, W("\\\""), W("'\""), W("`c`"), W("é"), W("\""), W("'"), W("\\\\\""), W("\"a\" it's \"b\""), W("'\"\"\"\""), <<"a", "CR", "CR", "b">>, <<"a", "NL", "NL", "b">> >>
Alts == << <<>>, W("alt"), W("two words"), W("[k]"), W("]"), W("["), W("*s*"), W("_u_"), W("a\\"), W("\\]"), <<"a", "NL", "b">>, W("<x>"), W("\"q\""), W("`c`"), W("!["), W("(p)"), W("]("), W("é"), W("**"), W("~~d~~"), W("[l](u)"), <<"a", "CR", "CR", "b">>, <<"a", "NL", "NL", "#", " ", "b">> >>

Hrefs0 == << W("/l"), W("/m"), W("https://e.com") >>
UseHref == IF Profile = "link" THEN Hrefs ELSE Hrefs0
UseTitle == IF Profile = "link" THEN Titles ELSE << <<>>, <<>>, W("t") >>
UseAlt == IF Profile = "link" THEN Alts ELSE << W("alt"), <<>> >>

---------------------------------------------------------------------------
(* menus: the weight of an entry is how often it occurs *)
FlowMenu ==
  CASE Profile = "block" -> << "p", "p", "p", "h", "h", "ul", "ul", "ol", "ol", "quote", "quote", "pre", "hr", "div", "text", "inl", "ws", "void", "close", "close", "close" >>
    [] Profile = "lists" -> << "text", "text", "text", "text", "p", "ul", "ul", "ol", "ol", "quote", "div", "pre", "hr", "h", "close", "close", "close", "close" >>
    [] Profile = "inline" -> << "p", "p", "p", "p", "h", "ul", "quote", "text", "inl", "inl", "inl", "ws", "close", "close" >>
    [] Profile \in {"esc", "escraw"} -> << "p", "p", "p", "h", "ul", "ol", "quote", "text", "text", "inl", "br", "close", "close" >>
    [] Profile = "code" -> << "pre", "pre", "pre", "p", "ul", "ol", "quote", "code", "div", "text", "close", "close" >>
    [] Profile = "link" -> << "p", "p", "p", "h", "ul", "quote", "a", "a", "img", "img", "text", "close" >>
    [] OTHER -> << "p", "p", "p", "h", "ul", "ol", "quote", "pre", "hr", "div", "text", "inl", "inl", "br", "ws", "img", "a", "void", "close", "close", "close" >>
PhraseMenu ==
  CASE Profile \in {"block", "lists"} -> << "text", "text", "text", "inl", "br", "close", "close", "close" >>
    [] Profile = "inline" -> << "text", "text", "inl", "inl", "inl", "code", "glue", "adj", "adj", "a", "img", "br", "blk", "blk", "blkul", "blkh", "close", "close" >>
    [] Profile \in {"esc", "escraw"} -> << "text", "text", "text", "text", "inl", "inl", "a", "br", "close", "close" >>
    [] Profile = "code" -> << "code", "code", "text", "inl", "adj", "close", "close" >>
    [] Profile = "link" -> << "a", "a", "a", "img", "img", "text", "text", "inl", "br", "close", "close" >>
    [] OTHER -> << "text", "text", "text", "inl", "inl", "code", "glue", "adj", "a", "img", "br", "close", "close", "close" >>

BlockTagsGen == << "div", "section", "article", "main" >>
InlTags == << "strong", "b", "em", "i", "del", "s", "strike", "span", "u" >>
LinkInl == << "strong", "em", "b", "i", "span" >>

---------------------------------------------------------------------------
Top == IF stk = <<>> THEN "root" ELSE stk[Len(stk)]
LastTok == IF toks = <<>> THEN T("none", "", <<>>, <<>>, <<>>) ELSE toks[Len(toks)]
InInl == \E i \in 1..Len(stk) : stk[i] \in InlineTags
InFlow == ~InInl /\ Top \in {"root", "blockquote", "li"} \cup (Transparent \ {"p"})
InList == Top \in ListTags
InPhrase == ~InFlow /\ ~InList
InLink == \E i \in 1..Len(stk) : stk[i] = "a"
JustOpened == LastTok.k = "o"
(* nothing visible since the element was opened *)
WsCr == WsNl \cup {"CR"}
Shows(t) == ~(t.k = "v" /\ t.e \notin {"br", "hr", "img"}) /\ ~(t.k = "t" /\ Trim(t.s, WsCr) = <<>>)
Bare == LET k == CHOOSE k \in 0..Len(toks) : (k = 0 \/ Shows(toks[k])) /\ \A m \in (k + 1)..Len(toks) : ~Shows(toks[m])
        IN k > 0 /\ toks[k].k = "o"
(* nothing but wrappers since the start of the list item *)
ItemStart == LET K == {k \in 1..Len(toks) : toks[k].k = "o" /\ toks[k].e = "li"} IN
             K # {} /\ LET k == CHOOSE k \in K : \A m \in K : m <= k IN
                       \A m \in (k + 1)..Len(toks) : ~Shows(toks[m]) \/ (toks[m].k = "o" /\ toks[m].e \in Transparent)
(* an emphasis around a link: a line break inside of the link is not supported (known finding) *)
EmphTags == BoldTags \cup ItalicTags \cup StrikeTags
EmphLink == \E x, y \in 1..Len(stk) : x < y /\ stk[x] \in EmphTags /\ stk[y] = "a"
Full == Len(toks) >= MaxTok
Deep == Len(stk) >= MaxDepth

Put(ts) == toks' = toks \o ts
Space == T("t", "", <<" ">>, <<>>, <<>>)
Txt(s) == T("t", "", s, <<>>, <<>>)
SepBefore == IF sep THEN <<>> ELSE <<Space>>
Cls == T("c", "", <<>>, <<>>, <<>>)

Keep(v) == UNCHANGED v /\ wt' = wt

Opts == IF Profile \in {"opts", "optsmix"}
        THEN {[Default EXCEPT !.em = a, !.strong = b, !.hr = h, !.bullet = c, !.fence = f, !.head = g, !.lec = l, !.del = d] :
                a \in {"*", "_"}, b \in {"**", "__"}, h \in {"* * *", "---", "___", "- - - -", "***"}, c \in {"-", "+", "*"},
                f \in {"```", "~~~"}, g \in {"atx", "setext"}, l \in BOOLEAN, d \in {"~~", "~"}}
        ELSE IF Profile = "code" THEN {Default, [Default EXCEPT !.fence = "~~~"]}
        ELSE IF Profile = "escraw" THEN {[Default EXCEPT !.esc = FALSE]}
        ELSE {Default}

Init == /\ toks = <<>> /\ stk = <<>> /\ mode = "pick" /\ acc = <<>> /\ sep = TRUE /\ rnd = 0 /\ wt = 0
        /\ cfg \in Opts

Menu == IF InList THEN IF Profile = "lists" THEN << "li", "li", "sub", "sub", "close", "close", "ws" >> ELSE << "li", "li", "li", "li", "sub", "close", "close", "ws" >>
        ELSE IF InFlow THEN FlowMenu ELSE PhraseMenu

(* which entries of the menu are possible now *)
Allowed(m) ==
  CASE m = "close" -> stk # <<>> /\ ~Bare
    [] m \in {"p", "h"} -> ~Deep
    [] m \in {"ul", "ol", "quote", "div", "li"} -> Len(stk) + 1 < MaxDepth
    [] m = "sub" -> Len(stk) + 2 < MaxDepth /\ LastTok.k = "c"
    [] m \in {"inl", "code"} -> ~Deep
    [] m = "adj" -> ~Deep /\ ~InLink /\ \A x \in 1..Len(stk) : stk[x] \notin EmphTags \cup CodeTags
    [] m = "glue" -> ~Deep /\ (\A x \in 1..Len(stk) : stk[x] \notin EmphTags) /\ cfg.em = "*" /\ cfg.strong = "**"   \* "_" has no meaning inside of a word
    [] m = "hr" -> ~(ItemStart /\ SubSeq(cfg.hr, 1, 1) = cfg.bullet)   \* known finding
    [] m = "a" -> ~Deep /\ ~InLink
    (* a span with a block inside counts as a block: no blocks inside of spans here *)
    [] m \in {"blk", "blkul", "blkh"} /\ (\E x \in 1..Len(stk) : stk[x] = "span") -> FALSE
    (* a block inside of an inline element that is not inside of another block that cannot contain it *)
    [] m = "blk" -> ~Deep /\ InInl /\ ~InLink /\ (\A x \in 1..Len(stk) : stk[x] \notin HeadTags \cup {"p", "li"} \/ \A y \in 1..x : stk[y] \notin InlineTags /\ stk[x] = "li") /\ cfg = Default
    [] m = "blkul" -> Len(stk) + 2 < MaxDepth /\ InInl /\ ~InLink /\ (\A x \in 1..Len(stk) : stk[x] \notin StrikeTags \cup {"p"}) /\ cfg = Default
    [] m = "blkh" -> ~Deep /\ InInl /\ ~InLink /\ (\A x \in 1..Len(stk) : stk[x] \notin HeadTags \cup StrikeTags \cup {"p", "strong", "b"}) /\ cfg = Default
    [] m = "br" -> LastTok.k = "t" /\ ~EmphLink /\ Trim(LastTok.s, WsCr) # <<>>
    [] m = "ws" -> (~sep \/ JustOpened) /\ ~(InList /\ JustOpened)
    [] OTHER -> TRUE

Pick == /\ mode = "pick" /\ ~Full
        /\ \E i \in 1..Len(Menu) : Allowed(Menu[i]) /\ mode' = Menu[i] /\ wt' = i
        /\ rnd' = 0 /\ UNCHANGED <<toks, stk, acc, sep, cfg>>

OpenB(e, a) == /\ Put(<<T("o", e, <<>>, a, <<>>)>>) /\ stk' = Append(stk, e) /\ mode' = "pick" /\ sep' = TRUE /\ Keep(<<acc, cfg, rnd>>)

OpenBlock ==
  \/ mode = "p" /\ OpenB("p", <<>>)
  \/ mode = "h" /\ \E e \in HeadTags : OpenB(e, <<>>)
  \/ mode \in {"ul", "ol"} /\ \E a \in {<<>>, W("1"), W("3"), W("9"), W("98"), W("0")} : OpenB(mode, IF mode = "ol" THEN a ELSE <<>>)
  \/ mode = "sub" /\ \E e \in ListTags : OpenB(e, <<>>)
  \/ mode = "li" /\ OpenB("li", <<>>)
  \/ mode = "quote" /\ OpenB("blockquote", <<>>)
  \/ mode = "div" /\ \E i \in 1..Len(BlockTagsGen) : OpenB(BlockTagsGen[i], <<>>)

OpenInInl ==
  \/ mode = "blk" /\ \E e \in {"div", "section"} : OpenB(e, <<>>)
  \/ mode = "blkh" /\ \E e \in {"h1", "h3"} : OpenB(e, <<>>)
  \/ /\ mode = "blkul" /\ \E e \in ListTags : Put(<<T("o", e, <<>>, <<>>, <<>>), T("o", "li", <<>>, <<>>, <<>>)>>) /\ stk' = stk \o <<e, "li">>
     /\ mode' = "pick" /\ sep' = TRUE /\ Keep(<<acc, cfg, rnd>>)

OpenInline ==
  \/ /\ mode = "inl"
     /\ LET I == IF InLink THEN LinkInl ELSE InlTags IN
        \E i \in 1..Len(I) : Put(SepBefore \o <<T("o", I[i], <<>>, <<>>, <<>>)>>) /\ stk' = Append(stk, I[i])
     /\ mode' = "pick" /\ sep' = TRUE /\ Keep(<<acc, cfg, rnd>>)
  \/ /\ mode = "a"
     /\ \E i \in 1..Len(UseHref) : Put(SepBefore \o <<T("o", "a", <<>>, UseHref[i], <<>>)>>)
     /\ stk' = Append(stk, "a") /\ mode' = "atitle" /\ sep' = TRUE /\ Keep(<<acc, cfg, rnd>>)
  \/ /\ mode = "atitle"
     /\ \E i \in 1..Len(UseTitle) : toks' = [toks EXCEPT ![Len(toks)].b = UseTitle[i]]
     /\ mode' = "text" /\ Keep(<<stk, acc, sep, cfg, rnd>>)

(* an inline element glued to letters on both sides *)
Glue ==
  /\ mode = "glue" /\ ~InLink
  /\ \E e \in {"strong", "em", "b", "i"} : \E w \in {W("ab"), W("c d"), W("9")} :
       Put(SepBefore \o << Txt(W("x")), T("o", e, <<>>, <<>>, <<>>), Txt(w), Cls, Txt(W("y")) >>)
  /\ mode' = "pick" /\ sep' = FALSE /\ Keep(<<stk, acc, cfg, rnd>>)
(* neighbours of the same kind are one element, also through spans and things that are not rendered *)
Kinds2 == << <<"strong", "b">>, <<"b", "b">>, <<"em", "i">>, <<"i", "i">>, <<"del", "s">>, <<"strike", "del">>, <<"code", "kbd">>, <<"samp", "samp">> >>
Opn(e) == T("o", e, <<>>, <<>>, <<>>)
Adjacent ==
  /\ mode = "adj"
  /\ \E i \in 1..Len(Kinds2), j \in 1..7, w \in {W("ab"), W("c d")} :
       LET a == << Opn(Kinds2[i][1]), Txt(w), Cls >>
           b == << Opn(Kinds2[i][2]), Txt(W("z")), Cls >>
           hid == <<T("v", IF i % 2 = 0 THEN "#comment" ELSE "script", <<>>, <<>>, <<>>)>> IN
       Put(SepBefore \o (CASE j = 1 -> a \o b
                          [] j = 2 -> a \o <<Opn("span")>> \o b \o <<Cls>>
                          [] j = 3 -> a \o hid \o b
                          [] j = 4 -> a \o <<Opn("span"), Opn("span")>> \o b \o <<Cls, Cls>>
                          [] j = 5 -> a \o b \o a
                          [] j = 6 -> <<Opn("span")>> \o a \o <<Cls>> \o b
                          [] OTHER -> <<Opn("span")>> \o a \o <<Cls, Opn("span"), Cls, Opn("span")>> \o b \o <<Cls>>))
  /\ mode' = "pick" /\ sep' = FALSE /\ Keep(<<stk, acc, cfg, rnd>>)
GlueInLink == mode = "glue" /\ InLink /\ mode' = "text" /\ Keep(<<toks, stk, acc, sep, cfg, rnd>>)

CodeSpan ==
  \/ /\ mode = "code" /\ acc = <<>>
     /\ \E i \in 1..Len(InlineCodeWords) : acc' = InlineCodeWords[i]
     /\ rnd' = 0 /\ Keep(<<toks, stk, mode, sep, cfg>>)
  \/ /\ mode = "code" /\ acc # <<>> /\ rnd = 0
     /\ \E i \in 1..(3 * Len(InlineCodeWords)) : /\ acc' = IF i > Len(InlineCodeWords) THEN acc ELSE acc \o (IF i % 3 = 0 THEN <<" ">> ELSE <<>>) \o InlineCodeWords[i]
                                                 /\ rnd' = i
     /\ Keep(<<toks, stk, mode, sep, cfg>>)
  \/ /\ mode = "code" /\ rnd > 0
     /\ \E e \in CodeTags : Put(SepBefore \o << T("o", e, <<>>, <<>>, <<>>), Txt(acc), Cls >>)
     /\ acc' = <<>> /\ mode' = "pick" /\ sep' = FALSE /\ rnd' = 0 /\ Keep(<<stk, cfg>>)

Text ==
  \/ /\ mode = "text" /\ acc = <<>>
     /\ \E i \in 1..Len(Words) : acc' = Words[i]
     /\ rnd' = 0 /\ Keep(<<toks, stk, mode, sep, cfg>>)
  \/ /\ mode = "text" /\ acc # <<>> /\ rnd = 0
     /\ \E r \in 1..6 : rnd' = r
     /\ Keep(<<toks, stk, mode, acc, sep, cfg>>)
  \/ /\ mode = "text" /\ rnd \in {1, 2}        \* end of the text
     /\ Put(SepBefore \o <<Txt(acc)>>) /\ acc' = <<>> /\ mode' = "pick" /\ rnd' = 0 /\ sep' = FALSE /\ Keep(<<stk, cfg>>)
  \/ /\ mode = "text" /\ rnd \in {3, 4, 5}     \* one more word
     /\ \E i \in 1..Len(Words) : acc' = acc \o (IF rnd = 5 /\ Profile \in {"esc", "escraw", "mixed"} THEN <<>> ELSE Spaces[1 + ((i + Len(toks)) % Len(Spaces))]) \o Words[i]
     /\ rnd' = 0 /\ Keep(<<toks, stk, mode, sep, cfg>>)
  \/ /\ mode = "text" /\ rnd = 6               \* end of the text, with whitespace
     /\ \E i \in 1..Len(Spaces) : Put(SepBefore \o <<Txt(acc \o Spaces[i])>>)
     /\ acc' = <<>> /\ mode' = "pick" /\ rnd' = 0 /\ sep' = TRUE /\ Keep(<<stk, cfg>>)

Void ==
  \/ /\ mode = "br"   \* a line break is surrounded by words
     /\ \E i \in 1..Len(Words) : Put(<< T("v", "br", <<>>, <<>>, <<>>), Txt(Words[i]) >>)
     /\ mode' = "pick" /\ sep' = FALSE /\ Keep(<<stk, acc, cfg, rnd>>)
  \/ /\ mode = "hr" /\ Put(<<T("v", "hr", <<>>, <<>>, <<>>)>>) /\ mode' = "pick" /\ sep' = TRUE /\ Keep(<<stk, acc, cfg, rnd>>)
  \/ /\ mode = "void" /\ \E e \in {"#comment", "script", "style", "meta", "input"} : Put(<<T("v", e, <<>>, <<>>, <<>>)>>)
     /\ mode' = "pick" /\ Keep(<<stk, acc, sep, cfg, rnd>>)
  \/ /\ mode = "ws" /\ \E i \in 1..Len(Spaces) : Put(<<Txt(Spaces[i])>>) /\ mode' = "pick" /\ sep' = TRUE /\ Keep(<<stk, acc, cfg, rnd>>)
  \/ /\ mode = "img" /\ \E i \in 1..Len(UseHref) : Put(SepBefore \o <<T("v", "img", <<>>, UseHref[i], <<>>)>>)
     /\ mode' = "ititle" /\ sep' = FALSE /\ Keep(<<stk, acc, cfg, rnd>>)
  \/ /\ mode = "ititle" /\ \E i \in 1..Len(UseTitle) : toks' = [toks EXCEPT ![Len(toks)].b = UseTitle[i]]
     /\ mode' = "ialt" /\ Keep(<<stk, acc, sep, cfg, rnd>>)
  \/ /\ mode = "ialt" /\ \E i \in 1..Len(UseAlt) : toks' = [toks EXCEPT ![Len(toks)].s = UseAlt[i]]
     /\ mode' = "pick" /\ Keep(<<stk, acc, sep, cfg, rnd>>)

Pre ==
  \/ /\ mode = "pre" /\ \E i \in 1..Len(Langs) : \E j \in 1..Len(Langs) : Put(<<T("p", "pre", <<>>, Langs[i], IF j % 3 = 0 THEN Langs[j] ELSE <<>>)>>)
     /\ mode' = "preline" /\ rnd' = 0 /\ Keep(<<stk, acc, sep, cfg>>)
  \/ /\ mode = "preline" /\ rnd = 0 /\ \E i \in 1..Len(Indents) : acc' = acc \o Indents[i]
     /\ rnd' = 1 /\ Keep(<<toks, stk, mode, sep, cfg>>)
  \/ /\ mode = "preline" /\ rnd = 1 /\ \E i \in 1..Len(CodeWords) : acc' = acc \o CodeWords[i]
     /\ rnd' = 2 /\ Keep(<<toks, stk, mode, sep, cfg>>)
  \/ /\ mode = "preline" /\ rnd = 2
     /\ \/ acc' = Append(acc, "NL") /\ rnd' = 0 /\ Keep(<<toks, stk, mode, sep, cfg>>)
        \/ /\ \E n \in {<<>>, <<"NL">>} : toks' = [toks EXCEPT ![Len(toks)].s = acc \o n]
           /\ acc' = <<>> /\ mode' = "pick" /\ sep' = TRUE /\ rnd' = 0 /\ Keep(<<stk, cfg>>)

Close == /\ \/ mode = "close" \/ (mode = "pick" /\ Full /\ stk # <<>>)
         /\ Put((IF Bare /\ ~InList THEN <<Txt(W("w"))>> ELSE IF Bare THEN << T("o", "li", <<>>, <<>>, <<>>), Txt(W("w")), Cls >> ELSE <<>>) \o <<Cls>>)
         /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
         /\ sep' = ~(Top \in InlineTags) /\ mode' = "pick" /\ Keep(<<acc, cfg, rnd>>)

Done == /\ mode = "pick" /\ Full /\ stk = <<>> /\ toks # <<>>
        /\ PrintT("CASE " \o ToJson([toks |-> toks, cfg |-> cfg]))
        /\ mode' = "done" /\ Keep(<<toks, stk, acc, sep, cfg, rnd>>)

Next == Pick \/ OpenBlock \/ OpenInline \/ OpenInInl \/ Glue \/ Adjacent \/ GlueInLink \/ CodeSpan \/ Text \/ Void \/ Pre \/ Close \/ Done
Spec == Init /\ [][Next]_vars
============================================================================
