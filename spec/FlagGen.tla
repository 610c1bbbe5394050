------------------------------- MODULE FlagGen ------------------------------
(* Generates argument lists and documents (C19).                            *)
EXTENDS FlagModel, Json
CONSTANTS MaxArgs, Mode
VARIABLES doc, args, faults, mode, stdin, full
vars == <<doc, args, faults, mode, stdin, full>>
WholeDoc == [k \in 1..(Len(Parts) - 2) |-> [p |-> k, cls |-> IF k % 3 = 0 THEN "x" ELSE IF k % 3 = 1 THEN "y" ELSE "z"]]
Init == IF Mode = "pairs" THEN doc = WholeDoc /\ args = <<>> /\ faults = 0 /\ mode = "pairs" /\ stdin = "doc" /\ full = FALSE
        ELSE doc = <<>> /\ args = <<>> /\ faults = 0 /\ mode = "doc" /\ stdin = "none" /\ full = FALSE
Part == /\ mode = "doc" /\ Len(doc) < 7
        /\ \E p \in 1..Len(Parts) : \E c \in Classes : (IF Parts[p] = "{BIG}" THEN doc = <<>> ELSE TRUE) /\ doc' = Append(doc, [p |-> p, cls |-> c])
        /\ UNCHANGED <<args, faults, mode, stdin, full>>
Begin == /\ mode = "doc" /\ \E f \in {0, 1, 2, 3} : faults' = IF f = 3 THEN 1 ELSE IF f = 2 THEN 0 ELSE f
         /\ \E s \in {"none", "doc", "doc2", "doc3", "other"} : stdin' = IF s \in {"doc2", "doc3"} THEN "doc" ELSE s
         /\ \E w \in 1..8 : full' = (w = 1)
         /\ mode' = "args" /\ UNCHANGED <<doc, args>>
GoodVals(n) == CASE n = "domain" -> {"https://example.com", "http://example.com/a/b?c", "example.com", ""}
                 [] n = "opt-strong-delimiter" -> {"**", "__", "__", ""}
                 [] n = "opt-table-span-cell-behavior" -> {"mirror", "empty"}
                 [] n = "opt-table-newline-behavior" -> {"preserve", "skip"}
                 [] n = "opt-table-cell-padding-behavior" -> {"minimal", "none", "aligned"}
                 [] n = "input" -> {"in.html", "./in.html", " in.html ", "in*.html", "*.html"}
                 [] n = "output" -> {"out.md", "sub/", "new/", "new/out.md", " out.md"}
                 [] n \in Sels -> GoodSels
                 [] n \in {"version", "v"} -> {"false", "0"}
                 [] OTHER -> {"true", "1", "T", "false", "f"}
BadVals(n) == CASE n = "domain" -> {"https://example.com"}
                [] n = "opt-strong-delimiter" -> {"*", "***", "_", " ", "** "}
                [] n = "opt-table-span-cell-behavior" -> {"copy", "Mirror", " "}
                [] n = "opt-table-newline-behavior" -> {"keep", "SKIP"}
                [] n = "opt-table-cell-padding-behavior" -> {"aligned ", "max"}
                [] n = "input" -> {"", " ", "missing.html", "sub", ".", "*.txt"}
                [] n = "output" -> {"", "  ", "sub", "old.md"}
                [] n \in Sels -> {"", "  ", "[", "p >", ":foo", "p,,em", "> p", ".", "#"}
                [] OTHER -> {"", "maybe", "2", "yes", "truE"}
Dash == {"--", "--", "--", "-"}
Put(n, v, d, eq) == IF eq \/ n \in Bools THEN <<d \o n \o "=" \o v>> ELSE <<d \o n, v>>
Weighted == Names \cup {}
Good == /\ mode = "args" /\ Len(args) < MaxArgs /\ Mode = "walk"
        /\ \E n \in Names \ {"version", "v"} : \E v \in GoodVals(n) : \E d \in Dash : \E eq \in {TRUE, FALSE} :
             args' = args \o (IF n \in Bools /\ v \in {"true", "1"} THEN <<d \o n>> ELSE Put(n, v, d, eq))
        /\ UNCHANGED <<doc, faults, mode, stdin, full>>
Table == /\ mode = "args" /\ Len(args) < MaxArgs /\ Mode = "walk"
         /\ \E n \in NeedTable : \E v \in GoodVals(n) : \E eq \in {TRUE, FALSE} :
             args' = (IF "--plugin-table" \in {args[k] : k \in 1..Len(args)} THEN args ELSE Append(args, "--plugin-table"))
                     \o (IF n \in Bools THEN <<"--" \o n>> ELSE Put(n, v, "--", eq))
         /\ UNCHANGED <<doc, faults, mode, stdin, full>>
Odd == {"--help", "-h", "--help=x", "-help", "--version", "-v", "-v", "--v=true", "--unknown", "-x", "--plugin-tables", "--Plugin-table", "--domains=a", "-", "--", "---v", "-=v", "--=", "in.html", "<p>a</p>", "",
        "--domain", "--input", "--include-selector", "--opt-strong-delimiter"}
Bad == /\ mode = "args" /\ Len(args) < MaxArgs /\ Mode = "walk" /\ faults > 0
       /\ \/ \E n \in Names : \E v \in BadVals(n) : \E eq \in {TRUE, FALSE} : args' = args \o Put(n, v, "--", eq)
          \/ \E o \in Odd : \E r \in {1, 2} : args' = Append(args, o)
       /\ faults' = faults - 1 /\ UNCHANGED <<doc, mode, stdin, full>>
(* all ordered pairs of flags, good and bad, on a document with all parts *)
Items == {Put(n, v, "--", FALSE) : n \in Bools, v \in {"true", "maybe"}} \cup {<<"--" \o n>> : n \in Bools} \cup UNION {{Put(n, v, "--", TRUE) : v \in GoodVals(n) \cup BadVals(n)} : n \in Names \ Bools} \cup {<<o>> : o \in Odd}
Fixes(a) == IF Missing(Parse(a, Default).cfg) = {} THEN {a} ELSE {a, Append(a, "--plugin-table")}
Pair == /\ mode = "pairs"
        /\ \E a \in Items : \E b \in Items : \E c \in Fixes(a \o b) : args' = c
        /\ mode' = "args" /\ UNCHANGED <<doc, faults, stdin, full>>
Done == /\ mode = "args"
        /\ LET o == Outcome(args, stdin)
               html == IF o.k # "ok" THEN "" ELSE IF o.from = "other" THEN "<p>other</p>" ELSE Html(doc, Kept(o.cfg))
           IN PrintT("CASE " \o ToJson([args |-> args, stdin |-> stdin, full |-> full, html |-> Html(doc, Classes),
                 \* what the library is asked to convert, and with what
                 rest |-> IF o.k = "ok" /\ o.from = "other" /\ "z" \notin Kept(o.cfg) THEN "" ELSE html, b |-> o.cfg.b, t |-> o.cfg.t, k |-> o.k]))
        /\ mode' = "done" /\ UNCHANGED <<doc, args, faults, stdin, full>>
Next == Part \/ Begin \/ Good \/ Table \/ Bad \/ Pair \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
