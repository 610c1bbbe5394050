------------------------------ MODULE RobustGen -----------------------------
(* Generates inputs for which the only question is whether a result comes   *)
(* at all: short strings at every edge (Mode "edge": all of them), random   *)
(* soups of bytes and tags with all options (Mode "soup"), units that are    *)
(* repeated thousands of times (Mode "pump"), and one or two elements that  *)
(* are nested up to the depth that the parser allows (Mode "deep").  "{XX}" stands for a byte.*)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Mode, MaxLen
VARIABLES html, len, opt, mode, wt
vars == <<html, len, opt, mode, wt>>

Edge == << "*", "_", "-", "+", "1", ".", ")", "#", "=", ">", "`", "~", "[", "]", "(", "!", "|", "\\", "<", " ", "\n", "a", "é", "{0a}", "&lt;", "<br>", "<b>", "</b>", "<code>", "</code>" >>
Around == << <<"", "">>, <<"<p>", "</p>">>, <<"<pre>", "</pre>">>, <<"<a href='", "'>">>, <<"<a href=x title='", "'>y</a>">>, <<"<img src='", "'>">>, <<"<img src=i alt='", "'>">>,
             <<"<ol start='", "'><li>">>, <<"<pre class='language-", "'>">>, <<"<table><tr><td>", "</td></tr></table>">>, <<"<table><tr><td colspan='", "'>">>, <<"<table><tr><td rowspan='", "'>">>,
             <<"<li>", "</li>">>, <<"<h1>", "</h1>">>, <<"<blockquote>", "</blockquote>">>, <<"<a href=x>", "</a>">>, <<"x<", ">y">>, <<"<!--", "-->">>, <<"<!", ">">>, <<"<td align='", "'>">> >>

Pieces == Edge \o << "{00}", "{ff}", "{c3}", "{e2}{80}", "{ef}{bb}{bf}", "{ed}{a0}{80}", "{07}", "{ef}{80}{82}", "{0d}", "{0d}{0a}", "{09}", "{0c}", "{0b}", "{c2}{a0}", "{c2}{85}", "{e2}{80}{a8}", "😀", "\"", "'", "&", ";", "&#0;", "&#x110000;", "&#9;", "&nbsp;",
  "<p>", "</p>", "<div>", "</div>", "<em>", "</em>", "<del>", "</del>", "<pre>", "</pre>", "<a href=", "<a href=/x>", "</a>", "<img src=", "<img src=y>", "<ul>", "<ol start=", "<ol start=999999999>", "<ol start=-1>", "<li>", "</ul>", "<blockquote>", "<h1>", "<h2>", "</h1>", "<hr>",
  "<table>", "<tr>", "<td>", "<th>", "</table>", "<td colspan=0>", "<td colspan=1001 rowspan=3>", "<td colspan=-5>", "<td rowspan=70000>", "<caption>", "<thead>", "<tbody>", "<script>", "<style>", "<textarea>", "<template>", "<svg>", "<math>", "<plaintext>", "<select>", "<option>", "<frameset>", "<body>", "<html>", "<head>", "</html>", "<!--", "-->", "<![CDATA[", "]]>", "<!DOCTYPE", ">", "<?", "/>", "=", "x", "0", "99999999999999999999", "http://", "https://e.com/?a=1&b=%zz", "%", "://", "mailto:", "data:", "javascript:", "//", "#" >>
Units == Pieces \o << "<ul><li>", "<ol><li>a", "<table><tr><td>", "<b>a", "<b><i>", "<div> a", "</div>", "<blockquote>a</blockquote>", "<ul></ul>", "<a href=/x>a</a>", "a*", "[a](", "1. ", "- ", "# ", "``a", "<em>a</em> ", "<span> ", "<td>a", "<tr><td>a", "<br>", "<li>a", "<dl><dd>", "<!--x-->a", "<code>`", "<p>a", "<h1>a", "\n\n", " \n", "&lt;" >>

(* cells of a thousand columns: repeated, they ask for an output of thousands of times the input *)
Wide == {"<td colspan=1001 rowspan=3>", "<td rowspan=70000>"}
Pump == SelectSeq(Units, LAMBDA u : u \notin Wide)

Default == [table |-> FALSE, strike |-> FALSE, esc |-> TRUE, dom |-> "", head |-> "atx", lec |-> TRUE, span |-> "empty", nl |-> "skip", skip |-> FALSE, promote |-> FALSE, pres |-> FALSE, pad |-> "aligned", ehref |-> "render", econt |-> "render"]
All == [Default EXCEPT !.table = TRUE, !.strike = TRUE]
Opts == {[All EXCEPT !.table = a, !.esc = b, !.dom = c, !.head = d, !.span = e, !.nl = f, !.skip = g, !.promote = h, !.pres = p] :
           a \in BOOLEAN, b \in BOOLEAN, c \in {"", "e.com", "http://[::1", "%zz"}, d \in {"atx", "setext"}, e \in {"empty", "mirror"},
           f \in {"skip", "preserve"}, g \in BOOLEAN, h \in BOOLEAN, p \in BOOLEAN}

Nested == << "blockquote", "div", "p", "ul><li", "ol><li", "ul", "li", "b", "strong", "em", "i", "del", "s", "a href=/x", "a", "code", "pre", "kbd", "span", "h1", "h3", "table><tr><td", "table><tr><th", "table><caption", "td",
   "section", "dl><dd", "u", "font", "details", "center", "x-y", "button", "svg", "math", "object", "select", "template", "iframe", "noscript", "form", "label", "body", "ruby><rt" >>
Depth == {8, 24, 40, 100, 160, 240}
Inside == {"", "a", " a ", "<br>", "<hr>", "a<b>c</b>"}
Tag(k) == "<" \o Nested[k] \o ">"
Deep == \E a \in 1..Len(Nested) : \E b \in 0..Len(Nested) : \E n \in Depth : \E x \in Inside :
          html' = (IF b = 0 THEN Tag(a) ELSE Tag(a) \o Tag(b)) /\ len' = n /\ mode' = x /\ wt' = a * 100 + b

Emit(s, rep, o) == PrintT("CASE " \o ToJson([html |-> s, rep |-> rep, opt |-> o, prof |-> Mode]))
Init == /\ html = "" /\ len = 0 /\ mode = "go" /\ wt = 0
        /\ IF Mode = "edge" THEN opt = All ELSE opt \in Opts
EdgeNext == /\ Mode = "edge" /\ mode = "go"
            /\ \A a \in 1..Len(Around) : Emit(Around[a][1] \o html \o Around[a][2], 1, opt)
            /\ IF len < MaxLen THEN \E k \in 1..Len(Edge) : html' = html \o Edge[k] /\ len' = len + 1 /\ mode' = "go"
               ELSE mode' = "done" /\ UNCHANGED <<html, len>>
            /\ UNCHANGED <<opt, wt>>
DeepNext == /\ Mode = "deep"
            /\ IF mode = "go" THEN Deep
               ELSE /\ mode # "done" /\ PrintT("CASE " \o ToJson([html |-> html, rep |-> len, pre |-> "", post |-> mode, opt |-> opt, prof |-> Mode]))
                    /\ mode' = "done" /\ UNCHANGED <<html, len, wt>>
            /\ UNCHANGED opt
Grow == /\ Mode \notin {"edge", "deep"} /\ mode = "go" /\ len < MaxLen
        /\ LET P == IF Mode = "pump" THEN Pump ELSE Pieces IN
           \E k \in 1..Len(P) : html' = html \o P[k] /\ wt' = k
        /\ len' = len + 1 /\ UNCHANGED <<opt, mode>>
Stop == /\ Mode \notin {"edge", "deep"} /\ mode = "go" /\ len > 0
        /\ IF len < MaxLen THEN Mode = "pump" ELSE TRUE
        /\ IF Mode = "pump" THEN \E a \in 1..Len(Around) : PrintT("CASE " \o ToJson([html |-> html, rep |-> 2500, pre |-> Around[a][1], post |-> Around[a][2], opt |-> opt, prof |-> Mode])) ELSE Emit(html, 1, opt)
        /\ mode' = "done" /\ UNCHANGED <<html, len, opt, wt>>
Next == EdgeNext \/ DeepNext \/ Grow \/ Stop
Spec == Init /\ [][Next]_vars
============================================================================
