------------------------------- MODULE OptGen ------------------------------
(* Enumerates option values: one option at a time, all pairs of options,    *)
(* every short string as a divider, and options that are given twice.       *)
EXTENDS OptModel, Json
CONSTANTS Mode, MaxLen

VARIABLES o,    \* the values
          f,    \* what is given before, for options that are given twice
          pc
vars == <<o, f, pc>>
None == [n \in {Names[k] : k \in 1..Len(Names)} |-> <<>>]
Values(n) == CASE n = "hr" -> {"---", "* * *", "--", "ab", "*-*"}
               [] n \in {"em", "strong", "bullet", "fence"} ->
                    {"*", "_", "**", "__", "-", "+", "***", "*_", "a", " ", "1.", "--", "```", "~~~", "````", "``", "~~", "~`~", "* ", " *"}
               [] OTHER -> Allowed(n) \cup {"x", "ATX", "Setext", "Render", "skip ", "default", "0", "mirror", "preserve", "none", "render"}

Init == o = None /\ f = None /\ pc = "go"
One == /\ Mode = "pairs" /\ pc = "go"
       /\ \E k \in 1..Len(Names) : \E v \in Values(Names[k]) :
            \E j \in k..Len(Names) : \E w \in (IF j = k THEN {""} ELSE IF Values(Names[j]) = {} THEN {} ELSE {"x", "***", CHOOSE a \in Values(Names[j]) : ValidOpt(Names[j], Chars(a))}) :
              o' = IF j = k THEN [o EXCEPT ![Names[k]] = Chars(v)] ELSE [o EXCEPT ![Names[k]] = Chars(v), ![Names[j]] = Chars(w)]
       /\ f' = f /\ pc' = "done" /\ PrintT("CASE " \o ToJson([o |-> o', f |-> f]))
(* the last value counts *)
Twice == /\ Mode = "twice" /\ pc = "go"
         /\ \E k \in 1..Len(Names) : \E v \in Values(Names[k]) : \E w \in {x \in Values(Names[k]) : ValidOpt(Names[k], Chars(x))} :
              /\ o' = [o EXCEPT ![Names[k]] = Chars(v)] /\ f' = [f EXCEPT ![Names[k]] = Chars(w)]
         /\ pc' = "done" /\ PrintT("CASE " \o ToJson([o |-> o', f |-> f']))
Hr == /\ Mode = "hr" /\ pc = "go" /\ Len(o["hr"]) < MaxLen
      /\ \E c \in {"*", "-", "_", " ", "a"} : o' = [o EXCEPT !["hr"] = Append(@, c)]
      /\ f' = f /\ pc' = pc /\ PrintT("CASE " \o ToJson([o |-> o', f |-> f]))
Next == One \/ Twice \/ Hr
Spec == Init /\ [][Next]_vars
============================================================================
