------------------------------ MODULE OptModel -----------------------------
(* Which values the options of the plugins accept.  An option is a sequence *)
(* of characters; the empty one stands for the default.                     *)
EXTENDS MdMeaning

Names == <<"em", "strong", "hr", "bullet", "fence", "head", "ehref", "econt", "span", "nl", "pad">>
Allowed(n) ==
  CASE n = "em" -> {"*", "_"}
    [] n = "strong" -> {"**", "__"}
    [] n = "bullet" -> {"-", "+", "*"}
    [] n = "fence" -> {"```", "~~~"}
    [] n = "head" -> {"atx", "setext"}
    [] n \in {"ehref", "econt"} -> {"render", "skip"}
    [] n = "span" -> {"empty", "mirror"}
    [] n = "nl" -> {"skip", "preserve"}
    [] n = "pad" -> {"aligned", "minimal", "none"}
    [] OTHER -> {}
Rule(v) == LET s == SelectSeq(v, LAMBDA c : c # " ") IN
           Len(s) >= 3 /\ s[1] \in {"*", "-", "_"} /\ \A k \in 1..Len(s) : s[k] = s[1]
ValidOpt(n, v) == v = <<>> \/ IF n = "hr" THEN Rule(v) ELSE v \in {Chars(a) : a \in Allowed(n)}
Invalid(o) == {k \in 1..Len(Names) : ~ValidOpt(Names[k], o[Names[k]])}
============================================================================
