------------------------------- MODULE CliModel -----------------------------
(* The command line tool and the file system (C17).  A run reads the files  *)
(* that a pattern names (or its standard input), and writes their           *)
(* conversions to the standard output, to one file or into a directory.     *)
(* Paths are sequences of names.  A file system is a set of entries         *)
(* [p: path, k: "file", "dir", "link" (to nothing, or to a folder elsewhere: not followed) or "secret" (cannot be   *)
(* read), c: content].  A content is a word, or a word in a paragraph.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, k) == SubSeq(s, k, k)
Rest(s) == SubSeq(s, 2, Len(s))
RECURSIVE FindCh(_, _, _)
FindCh(s, c, k) == IF k > Len(s) THEN 0 ELSE IF Ch(s, k) = c THEN k ELSE FindCh(s, c, k + 1)
RECURSIVE SplitOn(_, _)
SplitOn(s, c) == LET k == FindCh(s, c, 1) IN IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o SplitOn(SubSeq(s, k + 1, Len(s)), c)
RECURSIVE LastCh(_, _, _)
LastCh(s, c, k) == IF k = 0 THEN 0 ELSE IF Ch(s, k) = c THEN k ELSE LastCh(s, c, k - 1)

(* one name against one pattern: * ? [ab] {x,y} *)
RECURSIVE NameMatch(_, _)
NameMatch(p, s) ==
  IF p = "" THEN s = ""
  ELSE LET c == Ch(p, 1) IN
       CASE c = "*" -> NameMatch(Rest(p), s) \/ (s # "" /\ NameMatch(p, Rest(s)))
         [] c = "?" -> s # "" /\ NameMatch(Rest(p), Rest(s))
         [] c = "[" -> LET e == FindCh(p, "]", 1) IN
                       s # "" /\ (\E k \in 2..(e - 1) : Ch(p, k) = Ch(s, 1)) /\ NameMatch(SubSeq(p, e + 1, Len(p)), Rest(s))
         [] c = "{" -> LET e == FindCh(p, "}", 1)
                           alts == SplitOn(SubSeq(p, 2, e - 1), ",")
                       IN \E k \in 1..Len(alts) : NameMatch(alts[k] \o SubSeq(p, e + 1, Len(p)), s)
         [] OTHER -> s # "" /\ Ch(s, 1) = c /\ NameMatch(Rest(p), Rest(s))
(* paths: ** is any number of directories *)
RECURSIVE PathMatch(_, _)
PathMatch(ps, fs) ==
  IF ps = <<>> THEN fs = <<>>
  ELSE IF ps[1] = "**" THEN PathMatch(Tail(ps), fs) \/ (fs # <<>> /\ PathMatch(ps, Tail(fs)))
  ELSE fs # <<>> /\ NameMatch(ps[1], fs[1]) /\ PathMatch(Tail(ps), Tail(fs))
(* "." and ".." in the path of a run *)
RECURSIVE Clean(_, _)
Clean(ps, out) == IF ps = <<>> THEN out
                  ELSE IF ps[1] \in {".", ""} THEN Clean(Tail(ps), out)
                  ELSE IF ps[1] = ".." THEN Clean(Tail(ps), SubSeq(out, 1, Len(out) - 1))
                  ELSE Clean(Tail(ps), Append(out, ps[1]))
(* The tool runs in the directory "w" of everything that is observed; "{W}" is the absolute path of that. *)
Abs(s) == LET ps == SplitOn(s, "/") IN IF ps[1] = "{W}" THEN Clean(Tail(ps), <<"w">>) ELSE Clean(ps, <<"w">>)

At(fs, p) == {e \in fs : e.p = p}
IsDir(fs, p) == \E e \in fs : e.p = p /\ e.k = "dir"
Exists(fs, p) == \E e \in fs : e.p = p
Matched(fs, pattern) == {e \in fs : e.k # "dir" /\ PathMatch(Abs(pattern), e.p)}

BaseName(p) == LET n == p[Len(p)] k == LastCh(n, ".", Len(n)) IN IF k = 0 THEN n ELSE SubSeq(n, 1, k - 1)
Hex == {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"}
(* base.<ten hexadecimal digits>.md *)
Hashed(n, base) == LET b == Len(base) IN
  /\ Len(n) = b + 14 /\ SubSeq(n, 1, b) = base /\ Ch(n, b + 1) = "." /\ SubSeq(n, b + 12, b + 14) = ".md"
  /\ \A k \in (b + 2)..(b + 11) : Ch(n, k) \in Hex
Slashed(s) == s # "" /\ Ch(s, Len(s)) = "/"
Prefixes(p) == {SubSeq(p, 1, k) : k \in 1..Len(p)}

WordOf(c) == IF c = "<p> </p>" THEN "" ELSE IF Len(c) >= 7 /\ SubSeq(c, 1, 3) = "<p>" THEN SubSeq(c, 4, Len(c) - 4) ELSE c

(* A run r = [input, output, over, stdin: [k, c]] *)
Inputs(fs, r) == IF r.input # "" THEN Matched(fs, r.input)
                 ELSE IF r.stdin.k = "none" THEN {} ELSE {[p |-> <<"output">>, k |-> "file", c |-> r.stdin.c]}
Target(r) == Abs(r.output)
DirOf(r) == IF Slashed(r.output) THEN Target(r) ELSE SubSeq(Target(r), 1, Len(Target(r)) - 1)
Blocked(fs, p) == \E q \in Prefixes(p) : \E e \in At(fs, q) : e.k # "dir"
Plain(e) == BaseName(e.p) \o ".md"
PlainPath(r, e) == Append(DirOf(r), Plain(e))
(* what can be written at a path *)
Free(fs, p, over) == IF over THEN ~IsDir(fs, p) ELSE ~Exists(fs, p)
(* the outcome: "stdout", "file", "dir" or "error" *)
Kind(fs, r) ==
  LET in == Inputs(fs, r) IN
  IF in = {} \/ (\E e \in in : e.k # "file") THEN "error"
  ELSE IF r.output = "" THEN IF Cardinality(in) > 1 THEN "error" ELSE "stdout"
  ELSE IF Blocked(fs, DirOf(r)) THEN "error"
  ELSE IF Slashed(r.output) THEN IF \A e \in in : Free(fs, PlainPath(r, e), r.over) THEN "dir" ELSE "error"
  ELSE IF Cardinality(in) > 1 \/ ~Free(fs, Target(r), r.over) THEN "error"
  ELSE "file"
(* to write through a link is not what this model is about *)
ThroughLink(fs, r) == r.over /\ r.output # "" /\ \E e \in fs : e.k = "link" /\ (e.p = Target(r) \/ SubSeq(e.p, 1, Len(e.p) - 1) = DirOf(r))

File(p, c) == [p |-> p, k |-> "file", c |-> c]
NewDirs(fs, p) == {[p |-> q, k |-> "dir", c |-> ""] : q \in {x \in Prefixes(p) : ~Exists(fs, x)}}
Over(fs, new) == {e \in fs : \A o \in new : o.p # e.p} \cup new
(* The files of a directory: one of the inputs of the same base name gets   *)
(* base.md, every other one a name with a hash, and no two the same.        *)
NameOk(n, e) == n = Plain(e) \/ Hashed(n, BaseName(e.p))
RECURSIVE Writes(_, _, _, _)
Writes(fs, r, in, cand) ==
  IF in = {} THEN {{}}
  ELSE LET e == CHOOSE e \in in : TRUE
       IN UNION {{{o} \cup W : W \in Writes(fs, r, in \ {e}, cand \ {o})} : o \in {o \in cand : o.c = WordOf(e.c) /\ NameOk(o.p[Len(o.p)], e)}}
(* fs2 is what the run has to leave behind *)
After(fs, r, fs2, stdout) ==
  LET in == Inputs(fs, r)
      e == CHOOSE e \in in : TRUE
      kind == Kind(fs, r)
      cand == {o \in fs2 : o.k = "file" /\ Len(o.p) = Len(DirOf(r)) + 1 /\ SubSeq(o.p, 1, Len(o.p) - 1) = DirOf(r)}
  IN CASE kind = "stdout" -> fs2 = fs /\ stdout = WordOf(e.c) \o "\n"
       [] kind = "file" -> stdout = "" /\ fs2 = Over(fs, {File(Target(r), WordOf(e.c))}) \cup NewDirs(fs, DirOf(r))
       [] kind = "dir" -> stdout = "" /\ \E W \in Writes(fs, r, in, cand) : fs2 = Over(fs, W) \cup NewDirs(fs, DirOf(r)) /\ \A i \in in : \E o \in W : o.p = PlainPath(r, i)
       [] OTHER -> FALSE
(* A run that failed may have created directories, and some of its outputs. *)
Harmless(fs, r, fs2) ==
  /\ \A e \in fs2 \ fs : \/ e.k = "dir" /\ r.output # "" /\ e \in NewDirs(fs, DirOf(r))
                         \/ /\ e.k = "file" /\ Slashed(r.output) /\ SubSeq(e.p, 1, Len(e.p) - 1) = DirOf(r)
                            /\ \E i \in Inputs(fs, r) : e.c = WordOf(i.c) /\ NameOk(e.p[Len(e.p)], i)
                            /\ Exists(fs, e.p) => r.over
  /\ \A e \in fs \ fs2 : r.over /\ \E o \in fs2 : o.p = e.p
============================================================================
