------------------------------ MODULE FlagModel -----------------------------
(* The arguments of the command line tool (C19): how they are parsed, and   *)
(* which outcome a run has.                                                 *)
(* Parsing is a machine over the arguments: state [st, rest, cfg, name],    *)
(* st "ok", "help" or "error" (name: the flag that the message has to name).*)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, k) == SubSeq(s, k, k)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, k) == IF k > Len(s) THEN 0 ELSE IF Ch(s, k) = c THEN k ELSE FindFrom(s, c, k + 1)
RECURSIVE TrimL(_)
TrimL(s) == IF s # "" /\ Ch(s, 1) = " " THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # "" /\ Ch(s, Len(s)) = " " THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))
Contains(s, t) == \E k \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, k, k + Len(t) - 1) = t

Bools == {"version", "v", "output-overwrite", "plugin-strikethrough", "plugin-table", "opt-table-skip-empty-rows",
          "opt-table-header-promotion", "opt-table-presentation-tables"}
Once == {"input", "output"}
Sels == {"include-selector", "exclude-selector"}
Texts == {"domain", "opt-strong-delimiter", "opt-table-span-cell-behavior", "opt-table-newline-behavior", "opt-table-cell-padding-behavior"}
Names == Bools \cup Once \cup Sels \cup Texts
NeedTable == {"opt-table-skip-empty-rows", "opt-table-header-promotion", "opt-table-presentation-tables",
              "opt-table-span-cell-behavior", "opt-table-newline-behavior", "opt-table-cell-padding-behavior"}
Truth == {"1", "t", "T", "true", "TRUE", "True"}
Falsehood == {"0", "f", "F", "false", "FALSE", "False"}
(* the selectors that occur *)
GoodSels == {".x", ".y", ".x, .y", " .x ", ".none", "div.x"}
(* a name of an element, which does not occur: the flag behind one without a value *)
IsName(s) == s = "in.html" \/ (s # "--" /\ Len(s) > 1 /\ Ch(s, 1) = "-" /\ FindFrom(s, "=", 1) = 0)
SelClasses(s) == CASE s \in {".x", " .x ", "div.x"} -> {"x"} [] s = ".y" -> {"y"} [] s = ".x, .y" -> {"x", "y"} [] OTHER -> {}

Default == [b |-> [n \in Bools |-> FALSE], t |-> [n \in Texts |-> IF n = "opt-strong-delimiter" THEN "**" ELSE ""],
            o |-> [n \in Once |-> ""], s |-> [n \in Sels |-> {}], has |-> {}]

Result(st, rest, cfg, name) == [st |-> st, rest |-> rest, cfg |-> cfg, name |-> name]
RECURSIVE Parse(_, _)
(* the arguments that are left, under the configuration so far *)
Parse(args, cfg) ==
  IF args = <<>> THEN Result("ok", <<>>, cfg, "")
  ELSE LET a == args[1] IN
  IF Len(a) < 2 \/ Ch(a, 1) # "-" THEN Result("ok", args, cfg, "")
  ELSE IF a = "--" THEN Result("ok", Tail(args), cfg, "")
  ELSE LET body == IF Ch(a, 2) = "-" THEN SubSeq(a, 3, Len(a)) ELSE SubSeq(a, 2, Len(a))
           eq == FindFrom(body, "=", 1)
           name == IF eq = 0 THEN body ELSE SubSeq(body, 1, eq - 1)
           val == IF eq = 0 THEN "" ELSE SubSeq(body, eq + 1, Len(body))
           next == IF eq = 0 THEN IF Len(args) > 1 THEN args[2] ELSE "" ELSE val
           left == IF eq = 0 THEN IF Len(args) > 1 THEN SubSeq(args, 3, Len(args)) ELSE <<>> ELSE Tail(args)
           fail == Result("error", <<>>, cfg, name)
       IN IF Ch(body, 1) \in {"-", "="} THEN Result("error", <<>>, cfg, "")
          ELSE IF name \in {"help", "h"} THEN Result("help", <<>>, cfg, "")
          ELSE IF name \notin Names THEN fail
          ELSE IF name \in Bools THEN
                 IF eq = 0 \/ val \in Truth THEN Parse(Tail(args), [cfg EXCEPT !.b[name] = TRUE])
                 ELSE IF val \in Falsehood THEN Parse(Tail(args), [cfg EXCEPT !.b[name] = FALSE])
                 ELSE fail
          ELSE IF eq = 0 /\ Len(args) = 1 THEN fail
          ELSE IF name \in Texts THEN Parse(left, [cfg EXCEPT !.t[name] = next])
          ELSE IF name \in Sels THEN IF next \in GoodSels \/ IsName(next) THEN Parse(left, [cfg EXCEPT !.s[name] = @ \cup SelClasses(next), !.has = @ \cup {name}]) ELSE fail
          ELSE IF Trim(next) = "" \/ cfg.o[name] # "" THEN fail
          ELSE Parse(left, [cfg EXCEPT !.o[name] = Trim(next)])

Missing(cfg) == IF cfg.b["plugin-table"] THEN {}
                ELSE {n \in NeedTable : IF n \in Bools THEN cfg.b[n] ELSE cfg.t[n] # ""}
ValidOptions(cfg) ==
  /\ cfg.t["opt-strong-delimiter"] \in {"", "**", "__"}
  /\ cfg.t["opt-table-span-cell-behavior"] \in {"", "empty", "mirror"}
  /\ cfg.t["opt-table-newline-behavior"] \in {"", "skip", "preserve"}
  /\ cfg.t["opt-table-cell-padding-behavior"] \in {"", "aligned", "minimal", "none"}

(* The files: in.html (the document), old.md and the directory sub.  stdin: "none", "doc" or "other". *)
Reads(cfg, stdin) ==
  CASE cfg.o["input"] \in {"in.html", "./in.html", "in*.html", "*.html"} -> "doc"
    [] cfg.o["input"] # "" -> "error"
    [] stdin = "none" -> "error"
    [] OTHER -> stdin
BaseOf(cfg) == IF cfg.o["input"] = "" THEN "output" ELSE "in"
Writes(cfg) ==
  LET o == cfg.o["output"] IN
  CASE o = "" -> "stdout"
    [] o = "old.md" -> IF cfg.b["output-overwrite"] THEN "old.md" ELSE "error"
    [] o = "sub" -> "error"
    [] o = "sub/" -> "sub/" \o BaseOf(cfg) \o ".md"
    [] o = "new/" -> "new/" \o BaseOf(cfg) \o ".md"
    [] OTHER -> o
(* [k: "error" (name), "help", "version", "any" or "ok" (cfg, what is read, where it is written)] *)
Out(k, name, cfg, from, to) == [k |-> k, name |-> name, cfg |-> cfg, from |-> from, to |-> to]
Outcome(args, stdin) ==
  LET p == Parse(args, Default)
      c == p.cfg
  IN CASE p.st = "help" -> Out("help", "", c, "", "")
       [] p.st = "error" -> Out("error", p.name, c, "", "")
       [] Missing(c) # {} -> Out("error", IF Cardinality(Missing(c)) = 1 THEN CHOOSE n \in Missing(c) : TRUE ELSE "", c, "", "")
       [] p.rest # <<>> -> Out("error", p.rest[1], c, "", "")
       [] c.b["version"] \/ c.b["v"] -> IF ValidOptions(c) THEN Out("version", "", c, "", "") ELSE Out("any", "", c, "", "")
       [] ~ValidOptions(c) \/ Reads(c, stdin) = "error" \/ Writes(c) = "error" -> Out("error", "", c, "", "")
       [] OTHER -> Out("ok", "", c, Reads(c, stdin), Writes(c))

-----------------------------------------------------------------------------
(* The document: parts with a class; an option shows itself in one of them. *)
Parts == <<
  "<p>a <strong>bold</strong> b</p>", "<p>a <del>gone</del> <s>old</s> b</p>",
  "<table><tr><th>a</th><th>bb</th></tr><tr><td>c</td><td>d</td></tr></table>",
  "<table><tr><td>a</td><td>b</td></tr><tr><td>c</td><td>dddd</td></tr></table>",
  "<table><tr><th>a</th><th>b</th></tr><tr><td></td><td></td></tr><tr><td>c</td><td>d</td></tr></table>",
  "<table><tr><th colspan=2>a</th><th>b</th></tr><tr><td rowspan=2>c</td><td>d</td><td>e</td></tr><tr><td>f</td><td>g</td></tr></table>",
  "<table role='presentation'><tr><td>a</td></tr><tr><td>b</td></tr></table>",
  "<table><tr><th>a</th></tr><tr><td>b<br>c</td></tr></table>",
  "<p><a href='/r?q=1'>l</a> <img src='i.png' alt=i></p>", "<p>**x** | ~~y~~ __z__</p>", "<ul><li>a</li><li><strong>b</strong></li></ul>", "<pre><code>  c\n</code></pre>",
  "<p><a href='#f'>f</a> <a href='?z=1'>z</a> <a href='../u'>u</a> 100%d %s</p>", "<p>crlf\r\n</p><textarea>t</textarea><!-- c --><script>1 < 2</script>",
  "{BIG}", \* replaced by 200 kB of text
  "" >>
Html(doc, S) == LET RECURSIVE H(_)
                    H(k) == IF k > Len(doc) THEN "" ELSE (IF doc[k].cls \in S THEN "<div class=" \o doc[k].cls \o ">" \o Parts[doc[k].p] \o "</div>" ELSE "") \o H(k + 1)
                IN H(1)
Classes == {"x", "y", "z"}
Kept(cfg) == (IF "include-selector" \in cfg.has THEN cfg.s["include-selector"] ELSE Classes) \ cfg.s["exclude-selector"]
=============================================================================
