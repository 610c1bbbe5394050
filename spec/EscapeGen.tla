------------------------------ MODULE EscapeGen ----------------------------
(* Enumerates texts, one character at a time, in every context.  The        *)
(* reachable states are exactly all texts up to MaxLen over the alphabet;   *)
(* each is printed as a document.  "BR" stands for a hard line break,       *)
(* "BSL" for a backslash and "DQ" for a double quote.                       *)
EXTENDS DocModel, Json

CONSTANTS MaxLen, Alphabet, Ctxs

VARIABLES txt, ctx
vars == <<txt, ctx>>

O(e) == T("o", e, <<>>, <<>>, <<>>)
OA(e, a) == T("o", e, <<>>, Chars(a), <<>>)
C == T("c", "", <<>>, <<>>, <<>>)
X(s) == T("t", "", Chars(s), <<>>, <<>>)

(* the document of a context: before and after the text *)
Before(k) ==
  CASE k = "p" -> <<O("p")>>
    [] k = "word" -> <<O("p"), X("a ")>>
    [] k = "glued" -> <<O("p"), X("a")>>
    [] k = "num" -> <<O("p"), X("1")>>
    [] k = "li" -> <<O("ul"), O("li")>>
    [] k = "ol" -> <<OA("ol", "1"), O("li")>>
    [] k = "quote" -> <<O("blockquote")>>
    [] k = "h" -> <<O("h2")>>
    [] k = "em" -> <<O("p"), O("em"), X("a")>>
    [] k = "strong" -> <<O("p"), O("strong"), X("a")>>
    [] k = "del" -> <<O("p"), O("del"), X("a")>>
    [] k = "a" -> <<O("p"), OA("a", "/u")>>
    [] k = "aftem" -> <<O("p"), O("em"), X("a"), C, X(" ")>>
    [] k = "br" -> <<O("p"), X("a"), T("v", "br", <<>>, <<>>, <<>>)>>
    [] k = "aft" -> <<O("p"), X("a"), C, O("p")>>
    [] OTHER -> <<O("p")>>
After(k) ==
  CASE k = "li" -> <<C, C>>
    [] k = "ol" -> <<C, C>>
    [] k \in {"em", "strong", "del"} -> <<X("a"), C, C>>
    [] k = "a" -> <<C, C>>
    [] k = "word" -> <<X(" a"), C>>
    [] k = "glued" -> <<X("a"), C>>
    [] k = "num" -> <<X(" b"), C>>
    [] OTHER -> <<C>>

(* the text as tokens; every "BR" is a token of its own *)
RECURSIVE TextToks(_)
TextToks(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] = "BR" THEN <<T("v", "br", <<>>, <<>>, <<>>)>> \o TextToks(From(s, 2))
  ELSE LET e == Find(s, 1, {"BR"}) IN <<T("t", "", SubSeq(s, 1, e - 1), <<>>, <<>>)>> \o TextToks(From(s, e))

(* line breaks are between characters that are visible *)
Good(s) == /\ s # <<>> /\ s[1] # "BR" /\ s[Len(s)] # "BR"
           /\ \E k \in 1..Len(s) : s[k] \notin {" ", "BR"}
           /\ \A k \in 1..Len(s) : s[k] = "BR" => s[k - 1] \notin {" ", "BR"} /\ s[k + 1] \notin {" ", "BR"}

Real(c) == CASE c = "BSL" -> "\\" [] c = "DQ" -> "\"" [] OTHER -> c
Init == txt = <<>> /\ ctx \in Ctxs
Next == /\ Len(txt) < MaxLen
        /\ \E c \in Alphabet : txt' = Append(txt, Real(c))
        /\ ctx' = ctx
        /\ Good(txt') => PrintT("CASE " \o ToJson([toks |-> Before(ctx) \o TextToks(txt') \o After(ctx), cfg |-> Default]))
Spec == Init /\ [][Next]_vars
============================================================================
