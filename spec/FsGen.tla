-------------------------------- MODULE FsGen -------------------------------
(* Generates file systems and histories of runs of the command line tool.   *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxFiles, MaxRuns
VARIABLES fs, runs, r, mode, word
vars == <<fs, runs, r, mode, word>>

Dirs == << "", "", "", "d/", "d/", "d/e/", "out/", "n.html/", "d/.h/" >>
Names == << "a.html", "a.html", "b.html", "a.htm", "a", "a.md", "b.md", "x.y.html", ".html", ".htm", "c d.html", "ä.html", "[a].html", "output.html", "output.md", "o.md", "x.y.md", "a..html", "A.html" >>
Patterns == << "a.html", "*", "*", "*", "**", "**", "**/*", "*.html", "*.html", "**/*.html", "*.html", "a*", "?.html", "[ab].html", "{a,b}.html", "**/*.html", "d/**", "**", "d/*", "*/*", "./*.html", "d/../*.html", "{W}/*.html", "{W}/**/a*", "../w/*.htm*", "out/*", "nope*", "d", "n.html",
               "**/e/*", "d/**/a.*", "**/.h/*", "*.{html,htm}", "d/a.html", "out/**/*.md", "**/a.htm?" >>
Outputs == << "", "", "out/", "out/", "out/", "./", "./", "d/", "new/", "new/", "{W}/out/", "out/", "out/", "out", "o.md", "d/o.md", "./", "d/", "new/dir/", "new/x/o.md", "a.html", "a.md", "a.html/", "../up/", "../up.md", "{W}/abs/", "{W}/abs/f.txt", "out/a.md", "n.html/", "b.html/x.md", "out//", "./out/", ".", "a", "new/x", "out/x", "new/dir/x.y", "d/e/a", "a.md", "a.md" >>
Contents == << "html", "html", "html", "md", "empty", "empty", "blank", "long" >>

Init == fs = <<>> /\ runs = <<>> /\ r = [input |-> "", output |-> "", over |-> FALSE, stdin |-> "none", eq |-> FALSE] /\ mode = "fs" /\ word = 0
(* Path clashes (a name that is a file and a directory) do not happen: no directory is called like a file, but n.html. *)
AddFile == /\ mode = "fs" /\ Len(fs) < MaxFiles
           /\ \E d \in 1..Len(Dirs) : \E n \in 1..Len(Names) : \E c \in 1..Len(Contents) :
                LET p == Dirs[d] \o Names[n]
                IN fs' = IF \E k \in 1..Len(fs) : fs[k].p = p THEN fs ELSE Append(fs, [p |-> p, k |-> "file", c |-> Contents[c], w |-> word + 1])
           /\ word' = word + 1 /\ UNCHANGED <<runs, r, mode>>
Odd == /\ mode = "fs" /\ fs # <<>> /\ Len(fs) < MaxFiles
       /\ \E x \in {<<"a.md", "link">>, <<"out/a.md", "link">>, <<"out/b.md", "link">>, <<"o.md", "link">>, <<"a.md", "dir">>, <<"out/a.md", "dir">>, <<"empty", "dir">>, <<"a.htm", "secret">>, <<"d/s.html", "secret">>, <<"d/lnk", "dirlink">>, <<"lnk", "dirlink">>} :
            fs' = IF \E k \in 1..Len(fs) : fs[k].p = x[1] THEN fs ELSE Append(fs, [p |-> x[1], k |-> x[2], c |-> "html", w |-> word + 1])
       /\ word' = word + 1 /\ UNCHANGED <<runs, r, mode>>
Start == /\ mode = "fs" /\ Len(fs) >= 1 /\ (IF Len(fs) < MaxFiles THEN word >= 3 ELSE TRUE) /\ mode' = "input" /\ UNCHANGED <<fs, runs, r, word>>
Input == /\ mode = "input" /\ Len(runs) < MaxRuns
         /\ \E k \in 0..(2 * Len(Patterns)) : \E s \in {"none", "html", "empty"} : \E eq \in BOOLEAN :
              r' = [input |-> IF k = 0 THEN "" ELSE Patterns[1 + (k % Len(Patterns))], output |-> "", over |-> FALSE,
                    stdin |-> IF k # 0 THEN (IF k % 4 = 0 THEN s ELSE "none") ELSE s, eq |-> eq]
         /\ mode' = "output" /\ UNCHANGED <<fs, runs, word>>
Output == /\ mode = "output"
          /\ \E o \in 1..Len(Outputs) : \E v \in BOOLEAN : runs' = Append(runs, [r EXCEPT !.output = Outputs[o], !.over = v])
          /\ mode' = "input" /\ UNCHANGED <<fs, r, word>>
(* the same again, with or without permission to replace *)
Again == /\ mode = "input" /\ runs # <<>> /\ Len(runs) < MaxRuns
         /\ \E v \in {TRUE, TRUE, FALSE} : runs' = Append(runs, [runs[Len(runs)] EXCEPT !.over = v])
         /\ UNCHANGED <<fs, r, mode, word>>
Done == /\ mode = "input" /\ Len(runs) = MaxRuns
        /\ PrintT("CASE " \o ToJson([fs |-> fs, runs |-> runs])) /\ mode' = "done" /\ UNCHANGED <<fs, runs, r, word>>
Next == AddFile \/ Odd \/ Start \/ Input \/ Output \/ Again \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
