------------------------------- MODULE WsModel ------------------------------
(* White space as a browser lays it out: the collapsing of spaces in the    *)
(* inline formatting contexts of a tree.                                    *)
(*                                                                          *)
(* tree: tokens [k, e, s], k: "o" open, "c" close, "t" text, "v" an element *)
(* without content, "m" comment, "d" doctype; e: name; s: characters        *)
EXTENDS MdChars

Ws == {" ", "TAB", "NL", "CR"}

(* which elements are blocks, void or preformatted: b, v, p *)
DefaultKinds == [b |-> {"div", "p", "ul", "li", "h1", "blockquote", "section", "table", "tr", "td", "pre", "hr", "article", "body"},
                 v |-> {"br", "img", "hr", "input", "wbr", "embed"},
                 p |-> {"pre", "code", "kbd", "samp", "tt", "var"}]

SwapKinds == [b |-> {"span", "x-y", "li"}, v |-> {"img"}, p |-> {"pre", "code"}]

(* The flat view: one item per character or event                           *)
(*   [t |-> "c", c, n]  a character of token n       [t |-> "B"] block edge *)
(*   [t |-> "X"] something visible that has no text (image, preformatted)   *)
It(t, c, n) == [t |-> t, c |-> c, n |-> n]
RECURSIVE Close(_, _, _)
Close(toks, k, d) ==   \* the token that closes the element opened at d = 1
  IF toks[k].k = "o" THEN Close(toks, k + 1, d + 1)
  ELSE IF toks[k].k = "c" THEN (IF d = 1 THEN k ELSE Close(toks, k + 1, d - 1))
  ELSE Close(toks, k + 1, d)

RECURSIVE Flat2(_, _, _, _)
Flat2(toks, K, k, st) ==
  IF k > Len(toks) THEN <<>>
  ELSE LET x == toks[k] IN
    CASE x.k = "t" -> [j \in 1..Len(x.s) |-> It("c", x.s[j], k)] \o Flat2(toks, K, k + 1, st)
      [] x.k = "o" /\ x.e \in K.p ->
           LET e == Close(toks, k + 1, 1) IN
           <<It(IF x.e \in K.b THEN "B" ELSE "X", "", k)>> \o Flat2(toks, K, e + 1, st)
      [] x.k = "o" -> (IF x.e \in K.b THEN <<It("B", "", k)>> ELSE <<>>) \o Flat2(toks, K, k + 1, Append(st, x.e))
      [] x.k = "c" -> (IF st[Len(st)] \in K.b THEN <<It("B", "", k)>> ELSE <<>>) \o Flat2(toks, K, k + 1, SubSeq(st, 1, Len(st) - 1))
      [] x.k = "v" -> (IF x.e \in K.b \cup {"br"} THEN <<It("B", "", k)>> ELSE IF x.e \in K.v \cup K.p THEN <<It("X", "", k)>> ELSE <<>>)
                      \o Flat2(toks, K, k + 1, st)
      [] OTHER -> Flat2(toks, K, k + 1, st)
Flat(toks, K) == <<It("B", "", 0)>> \o Flat2(toks, K, 1, <<>>) \o <<It("B", "", 0)>>

IsWs(x) == x.t = "c" /\ x.c \in Ws
RECURSIVE NextInk(_, _)
NextInk(f, j) == IF IsWs(f[j]) THEN NextInk(f, j + 1) ELSE f[j].t
(* a space is kept if something visible is directly before and somewhere    *)
(* behind it on its line                                                    *)
Kept(f, j) == ~IsWs(f[j]) \/ (~IsWs(f[j - 1]) /\ f[j - 1].t # "B" /\ NextInk(f, j) # "B")

(* the text of every text token after collapsing; the first one of a run of *)
(* spaces stays                                                             *)
Collapsed(toks, K) ==
  LET f == Flat(toks, K)
      in == {x.n : x \in {f[j] : j \in 1..Len(f)}}
      Of(k) == LET js == SelectSeq([j \in 1..Len(f) |-> j], LAMBDA j : f[j].t = "c" /\ f[j].n = k /\ Kept(f, j))
               IN [q \in 1..Len(js) |-> IF f[js[q]].c \in Ws THEN " " ELSE f[js[q]].c]
      new == [k \in 1..Len(toks) |-> IF toks[k].k = "t" /\ (toks[k].s = <<>> \/ k \in in) THEN [toks[k] EXCEPT !.s = Of(k)] ELSE toks[k]]
  IN SelectSeq(new, LAMBDA x : ~(x.k = "t" /\ x.s = <<>>) /\ x.k # "d")

(* An element that got empty is the same as one without content *)
RECURSIVE Shape(_)
Shape(toks) ==
  IF Len(toks) < 2 THEN toks
  ELSE IF toks[1].k = "o" /\ toks[2].k = "c" THEN <<[toks[1] EXCEPT !.k = "v"]>> \o Shape(From(toks, 3))
  ELSE <<toks[1]>> \o Shape(Tail(toks))
NoEmpty(toks) == SelectSeq(toks, LAMBDA x : ~(x.k = "t" /\ x.s = <<>>) /\ x.k # "d")

(* laws of the model, checked by WsGen *)
Idempotent(toks, K) == Collapsed(Collapsed(toks, K), K) = Collapsed(toks, K)
Ink(toks, K) == SelectSeq(Flat(toks, K), LAMBDA x : ~IsWs(x))
InkKept(toks, K) == [j \in 1..Len(Ink(toks, K)) |-> <<Ink(toks, K)[j].t, Ink(toks, K)[j].c>>]
                    = [j \in 1..Len(Ink(Collapsed(toks, K), K)) |-> <<Ink(Collapsed(toks, K), K)[j].t, Ink(Collapsed(toks, K), K)[j].c>>]
============================================================================
