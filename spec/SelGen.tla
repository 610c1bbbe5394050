-------------------------------- MODULE SelGen ------------------------------
(* Generates documents and selectors (C18).                                 *)
EXTENDS SelModel, TLC, Json
CONSTANTS MaxNodes, MaxSel
VARIABLES d, stack, inc, exc, cur, mode
vars == <<d, stack, inc, exc, cur, mode>>

None == [par |-> 0, tag |-> "", cls |-> {}, id |-> "", att |-> "", txt |-> ""]
El(p, t) == [None EXCEPT !.par = p, !.tag = t]
Init == /\ d = <<El(0, "html"), El(1, "head"), El(1, "body")>> /\ stack = <<3>> /\ inc = <<>> /\ exc = <<>> /\ cur = <<>> /\ mode = "doc"
Top == stack[Len(stack)]
TopTag == d[Top].tag
Block == {"div", "section", "blockquote", "ul", "p", "h2", "hr"}
Inline == {"span", "em", "strong", "a"}
InLink == \E k \in 1..Len(stack) : d[stack[k]].tag = "a"
Allowed == IF TopTag = "ul" THEN {"li"}
           ELSE IF TopTag \in {"p", "h2"} \cup Inline THEN Inline \ (IF InLink THEN {"a"} ELSE {})
           ELSE Block \cup Inline
TagList == << "div", "section", "blockquote", "ul", "li", "li", "li", "p", "p", "h2", "hr", "span", "em", "strong", "a", "div" >>
Open == /\ mode = "doc" /\ Len(d) < MaxNodes /\ Len(stack) < 7
        /\ \E t \in 1..Len(TagList) : \E c \in {{}, {}, {"x"}, {"y"}, {"Ad"}, {"x", "Ad"}, {"x", "y"}} : \E i \in {"", "", "", "i1", "i2"} : \E a \in {"", "", "u", "uv", "v"} :
             /\ TagList[t] \in Allowed
             /\ d' = Append(d, [El(Top, TagList[t]) EXCEPT !.cls = c, !.id = i, !.att = a])
             /\ stack' = IF TagList[t] = "hr" THEN stack ELSE Append(stack, Len(d) + 1)
        /\ UNCHANGED <<inc, exc, cur, mode>>
IsText(k) == k > 0 /\ d[k].tag = "" /\ d[k].par = Top
Text == /\ mode = "doc" /\ Len(d) < MaxNodes /\ TopTag # "ul" /\ ~IsText(Len(d))
        /\ \E x \in {0, 1, 2, 3, 4} : d' = Append(d, [None EXCEPT !.par = Top, !.txt = IF x = 4 THEN " " ELSE "w" \o ToString(Len(d))])
        /\ UNCHANGED <<stack, inc, exc, cur, mode>>
Close == /\ mode = "doc" /\ Len(stack) > 1 /\ \E k \in 1..(IF Len(stack) > 2 THEN 2 ELSE 1) : stack' = SubSeq(stack, 1, Len(stack) - k)
         /\ UNCHANGED <<d, inc, exc, cur, mode>>
Ready == /\ mode = "doc" /\ Len(d) >= MaxNodes /\ mode' = "inc" /\ UNCHANGED <<d, stack, inc, exc, cur>>

C0 == [tag |-> "", cls |-> "", id |-> "", att |-> "", pseudo |-> "", neg |-> <<>>]
Tags == {"", "", "div", "p", "li", "ul", "span", "em", "body", "h2", "section", "blockquote", "strong"}
Pseudos == {"", ":first-child", ":last-child", ":only-child", ":nth-child(2)", ":nth-child(odd)", ":nth-last-child(2)", ":first-of-type", ":last-of-type", ":empty"}
Simples == {[C0 EXCEPT !.tag = t] : t \in Tags} \cup {[C0 EXCEPT !.cls = c] : c \in {"x", "y", "Ad"}} \cup {[C0 EXCEPT !.id = "i1"], [C0 EXCEPT !.att = "[data-x]"], [C0 EXCEPT !.att = "[data-x=u]"], [C0 EXCEPT !.att = "[data-x^=u]"]}
           \cup {[C0 EXCEPT !.pseudo = p] : p \in Pseudos} \cup {[C0 EXCEPT !.tag = t, !.cls = c] : t \in {"div", "p", "li"}, c \in {"x", "Ad"}} \cup {[C0 EXCEPT !.tag = t, !.pseudo = p] : t \in {"p", "li", "div"}, p \in Pseudos}
Compounds == Simples \cup {[s EXCEPT !.neg = <<t>>] : s \in {C0, [C0 EXCEPT !.tag = "p"], [C0 EXCEPT !.cls = "x"]}, t \in Simples \ {C0}}
Combs == {" ", " ", ">", "+", "~"}
(* cur is the selector of the flag that is being made *)
Add == /\ mode \in {"inc", "exc"} /\ Len(cur) < 3
       /\ \E c \in Compounds : \E b \in Combs : \E new \in {TRUE, FALSE} :
            cur' = IF cur = <<>> \/ new THEN Append(cur, <<[comb |-> " ", c |-> c]>>)
                   ELSE [cur EXCEPT ![Len(cur)] = IF Len(@) < 3 THEN Append(@, [comb |-> b, c |-> c]) ELSE @]
       /\ UNCHANGED <<d, stack, inc, exc, mode>>
Flag == /\ mode \in {"inc", "exc"} /\ cur # <<>>
        /\ IF mode = "inc" THEN inc' = Append(inc, cur) /\ exc' = exc ELSE exc' = Append(exc, cur) /\ inc' = inc
        /\ cur' = <<>> /\ UNCHANGED <<d, stack, mode>>
Switch == /\ mode = "inc" /\ cur = <<>> /\ mode' = "exc" /\ UNCHANGED <<d, stack, inc, exc, cur>>
Args == [k \in 1..(2 * Len(inc)) |-> IF k % 2 = 1 THEN "--include-selector" ELSE SelStr(inc[k \div 2])]
        \o [k \in 1..(2 * Len(exc)) |-> IF k % 2 = 1 THEN "--exclude-selector" ELSE SelStr(exc[k \div 2])]
Done == /\ mode = "exc" /\ cur = <<>>
        /\ (IF Len(inc) + Len(exc) = 0 THEN FALSE ELSE Len(inc) <= MaxSel /\ Len(exc) <= MaxSel)
        /\ PrintT("CASE " \o ToJson([d |-> d, inc |-> inc, exc |-> exc, html |-> Whole(d), rest |-> Rest(d, inc, exc), args |-> Args]))
        /\ mode' = "done" /\ UNCHANGED <<d, stack, inc, exc, cur>>
Next == Open \/ Text \/ Close \/ Ready \/ Add \/ Flag \/ Switch \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
