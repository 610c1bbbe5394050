------------------------------- MODULE SoupGen ------------------------------
(* Generates arbitrary, mostly malformed HTML: tags that are never closed,  *)
(* closed twice or in the wrong order, misplaced table and list parts,      *)
(* unknown elements, stray entities and comments.  Every text is a numbered *)
(* word, so that each occurrence can be told from every other one.          *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Profile,   \* "any", "inline", "list", "table", "code"
          MaxTok

VARIABLES html,  \* the document so far
          stk,   \* the elements that were opened (a guess: the parser may disagree)
          num,   \* the number of words so far
          len,   \* the number of tokens so far
          mode, opt, wt
vars == <<html, stk, num, len, mode, opt, wt>>

BlockE == << "p", "p", "div", "div", "section", "article", "main", "header", "footer", "nav", "aside", "blockquote", "blockquote", "h1", "h2", "h3", "h6",
            "ul", "ol", "li", "li", "dl", "dt", "dd", "pre", "figure", "figcaption", "address", "fieldset", "legend", "form", "details", "summary", "center", "hgroup", "dialog", "body", "html" >>
InlineE == << "b", "strong", "strong", "i", "em", "em", "del", "s", "strike", "code", "code", "kbd", "samp", "tt", "var", "span", "span", "u", "small", "mark", "sub", "sup",
             "q", "cite", "dfn", "abbr", "time", "font", "big", "bdi", "ins", "label", "button", "nobr", "ruby", "rt", "rp", "a", "a", "a", "x-y", "data", "output", "picture" >>
ListE == << "ul", "ul", "ol", "ol", "li", "li", "li", "li", "p", "div", "blockquote", "pre", "b", "a", "dl", "dt", "dd", "menu", "h2" >>
TableE == << "table", "table", "tr", "tr", "td", "td", "td", "th", "tbody", "thead", "tfoot", "caption", "colgroup", "p", "div", "ul", "li", "b", "a", "code", "pre", "h3", "blockquote" >>
CodeE == << "pre", "pre", "code", "code", "kbd", "samp", "tt", "var", "p", "div", "span", "b", "a", "li", "ul", "blockquote", "em", "h4", "td" >>
OddE == << "svg", "math", "object", "audio", "video", "canvas", "map", "select", "option", "optgroup", "noembed", "iframe", "noscript", "textarea", "script", "style", "title", "head", "template", "frameset", "marquee", "listing", "xmp", "foreignObject", "mi", "desc", "blink", "image", "rb", "rtc", "slot", "search", "meter", "progress", "datalist" >>
VoidE == << "<br>", "<br>", "<br/>", "<hr>", "<hr>", "<img src=/i>", "<img src='/j k' alt='an alt' title=t>", "<img>", "<wbr>", "<input value=hidden>", "<embed>", "<col>", "<area>", "<base href=/b>", "<link rel=x>", "<meta name=y>", "<source>", "<param>", "<track>", "<keygen>", "</br>", "</p>" >>
JunkE == << "<!-- c0c -->", "<!--c0c-->", "<!-->", "<!DOCTYPE html>", "<!x>", "<?php c0c ?>", "<![CDATA[ c0c ]]>", "</>", "</ x>", "<>", "< ", "&amp;", "&lt;", "&gt;", "&nbsp;", "&#42;", "&#x5f;", "&bogus;", "&", "&#0;", "&copy", "<", ">", "\"", "'", "*", "_", "**", "`", "```", "~~", "# ", "- ", "1. ", "> ", "|", "[", "](", "!", "\\", "---", "===", "\t", "\r", "\r\n", "\n\n", "\f", "   ", "    " >>
Attr == << "", "", "", "", "", "", " class=a", " href=/u", " href='/u v' title=\"it's\"", " start=7", " start=-3", " start=x", " colspan=2", " rowspan=2", " colspan=99999999999", " rowspan=-1", " align=center", " class='language-go'", " id='a' id='b'", " role=presentation", " dir=rtl", " href=''", " title", " =", " /" >>

Tags == CASE Profile = "inline" -> InlineE \o << "p", "div", "li", "h2" >>
          [] Profile = "list" -> ListE
          [] Profile = "table" -> TableE
          [] Profile = "code" -> CodeE
          [] OTHER -> BlockE \o InlineE \o ListE \o TableE \o OddE

Menu == << "open", "open", "open", "open", "open", "close", "close", "close", "wrong", "text", "text", "text", "text", "text", "void", "junk" >>

Init == /\ html = "" /\ stk = <<>> /\ num = 0 /\ len = 0 /\ mode = "pick" /\ wt = 0
        /\ opt \in [table : BOOLEAN, strike : BOOLEAN, esc : BOOLEAN]

Pick == /\ mode = "pick" /\ len < MaxTok
        /\ \E k \in 1..Len(Menu) : mode' = Menu[k] /\ wt' = k
        /\ UNCHANGED <<html, stk, num, len, opt>>
Put(s, tag) == /\ html' = html \o s /\ len' = len + 1 /\ mode' = "pick" /\ UNCHANGED <<num, opt>>
               /\ stk' = IF tag = "" THEN stk ELSE Append(stk, tag)
(* a tag is drawn in two steps, to keep the number of alternatives small *)
Open == \/ /\ mode = "open"
           /\ \E k \in 1..Len(Tags) : html' = html \o "<" \o Tags[k] /\ stk' = Append(stk, Tags[k]) /\ wt' = k
           /\ mode' = "attr" /\ UNCHANGED <<num, len, opt>>
        \/ mode = "attr" /\ \E a \in 1..Len(Attr) : Put(Attr[a] \o ">", "") /\ wt' = a
Close == /\ mode = "close"
         /\ IF stk = <<>> THEN mode' = "text" /\ UNCHANGED <<html, stk, num, len, opt, wt>>
            ELSE /\ html' = html \o "</" \o stk[Len(stk)] \o ">" /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
                 /\ len' = len + 1 /\ mode' = "pick" /\ UNCHANGED <<num, opt, wt>>
Wrong == /\ mode = "wrong"
         /\ \E k \in 1..(Len(Tags) + 3 * Len(stk)) : Put("</" \o (IF k <= Len(Tags) THEN Tags[k] ELSE stk[1 + ((k - Len(Tags) - 1) \div 3)]) \o ">", "") /\ wt' = k
Before == << "", "", "", " ", " ", "\n", "*", "&lt;", "\n  ", " <!-- c0c -->", "<!--c0c--> ", "\n<script>c0c</script>" >>
After == << "", "", "", " ", " ", "\n", "_", ".", "!", "  \n", "\\" >>
Text == \/ /\ mode = "text"
           /\ \E a \in 1..Len(Before) : html' = html \o Before[a] \o "w" \o ToString(num + 1) \o "x" /\ wt' = a
           /\ num' = num + 1 /\ mode' = "after" /\ UNCHANGED <<len, stk, opt>>
        \/ mode = "after" /\ \E b \in 1..Len(After) : Put(After[b], "") /\ wt' = b
Void == mode = "void" /\ \E k \in 1..Len(VoidE) : Put(VoidE[k], "") /\ wt' = k
Junk == mode = "junk" /\ \E k \in 1..Len(JunkE) : Put(JunkE[k], "") /\ wt' = k
Done == /\ mode = "pick" /\ len = MaxTok
        /\ PrintT("CASE " \o ToJson([html |-> html, opt |-> opt, prof |-> Profile]))
        /\ mode' = "done" /\ UNCHANGED <<html, stk, num, len, opt, wt>>
Next == Pick \/ Open \/ Close \/ Wrong \/ Text \/ Void \/ Junk \/ Done
Spec == Init /\ [][Next]_vars
============================================================================
