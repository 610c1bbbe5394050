------------------------------ MODULE SelModel ------------------------------
(* CSS selectors on a tree, and what they select (C18).  The nodes are in   *)
(* document order: [par: number of the parent or 0, tag: name or "" for a   *)
(* text, cls: classes, id, att: value of data-x or "", txt].                *)
(* A selector is a sequence of alternatives; an alternative is a sequence   *)
(* of [comb, c], from left to right, with comb " ", ">", "+" or "~" before  *)
(* the compound c = [tag, cls, id, att, pseudo, neg]; neg: compounds that   *)
(* must not match.                                                          *)
EXTENDS Integers, Sequences, FiniteSets

Kids(d, k) == {j \in 1..Len(d) : d[j].par = k}
IsEl(d, k) == d[k].tag # ""
Sibs(d, k) == {j \in Kids(d, d[k].par) : IsEl(d, j)}
Before(d, k) == {j \in Sibs(d, k) : j < k}
Behind(d, k) == {j \in Sibs(d, k) : j > k}
OfType(d, S, k) == {j \in S : d[j].tag = d[k].tag}
RECURSIVE Ancestors(_, _)
Ancestors(d, k) == IF d[k].par = 0 THEN {} ELSE {d[k].par} \cup Ancestors(d, d[k].par)
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Pseudo(d, k, p) ==
  CASE p = "" -> TRUE
    [] p = ":first-child" -> Before(d, k) = {}
    [] p = ":last-child" -> Behind(d, k) = {}
    [] p = ":only-child" -> Sibs(d, k) = {k}
    [] p = ":nth-child(2)" -> Cardinality(Before(d, k)) = 1
    [] p = ":nth-child(odd)" -> Cardinality(Before(d, k)) % 2 = 0
    [] p = ":nth-last-child(2)" -> Cardinality(Behind(d, k)) = 1
    [] p = ":first-of-type" -> OfType(d, Before(d, k), k) = {}
    [] p = ":last-of-type" -> OfType(d, Behind(d, k), k) = {}
    [] p = ":empty" -> \A j \in Kids(d, k) : d[j].txt = " "   \* Selectors Level 4
Simple(d, k, c) ==
  /\ IsEl(d, k)
  /\ c.tag = "" \/ c.tag = d[k].tag
  /\ c.cls = "" \/ c.cls \in d[k].cls
  /\ c.id = "" \/ c.id = d[k].id
  /\ CASE c.att = "" -> TRUE
       [] c.att = "[data-x]" -> d[k].att # ""
       [] c.att = "[data-x=u]" -> d[k].att = "u"
       [] c.att = "[data-x^=u]" -> d[k].att # "" /\ HasPrefix(d[k].att, "u")
  /\ Pseudo(d, k, c.pseudo)
Compound(d, k, c) == Simple(d, k, c) /\ (Len(c.neg) = 0 \/ ~Simple(d, k, c.neg[1]))
RECURSIVE Complex(_, _, _, _)
(* the first n compounds of s match at k *)
Complex(d, k, s, n) ==
  /\ Compound(d, k, s[n].c)
  /\ IF n = 1 THEN TRUE
     ELSE \E j \in (CASE s[n].comb = " " -> Ancestors(d, k)
                      [] s[n].comb = ">" -> {d[k].par} \ {0}
                      [] s[n].comb = "+" -> {j \in Before(d, k) : \A m \in Before(d, k) : m <= j}
                      [] s[n].comb = "~" -> Before(d, k)) : Complex(d, j, s, n - 1)
Matches(d, sel) == {k \in 1..Len(d) : \E a \in 1..Len(sel) : Complex(d, k, sel[a], Len(sel[a]))}
All(d, sels) == UNION {Matches(d, sels[m]) : m \in 1..Len(sels)}

Gone(d, exc) == LET X == All(d, exc) IN {k \in 1..Len(d) : k \in X \/ Ancestors(d, k) \cap X # {}}
(* the tops of what is converted, in document order *)
Tops(d, inc, exc) ==
  LET I == All(d, inc)
      G == Gone(d, exc)
  IN IF Len(inc) = 0 THEN {k \in 1..Len(d) : d[k].par = 0} \ G
     ELSE {k \in I \ G : Ancestors(d, k) \cap I = {}}
(* the texts that remain *)
Remain(d, inc, exc) == LET T == Tops(d, inc, exc) G == Gone(d, exc)
                       IN {k \in (1..Len(d)) \ G : k \in T \/ Ancestors(d, k) \cap T # {}}

-----------------------------------------------------------------------------
(* written down *)
RECURSIVE Join(_, _, _)
Join(s, sep, k) == IF k > Len(s) THEN "" ELSE (IF k = 1 THEN "" ELSE sep) \o s[k] \o Join(s, sep, k + 1)
SimpleStr(c) == LET b == c.tag \o (IF c.id = "" THEN "" ELSE "#" \o c.id) \o (IF c.cls = "" THEN "" ELSE "." \o c.cls) \o c.att \o c.pseudo
                IN b
CompoundStr(c) == LET s == SimpleStr(c) \o (IF Len(c.neg) = 0 THEN "" ELSE ":not(" \o SimpleStr(c.neg[1]) \o ")") IN IF s = "" THEN "*" ELSE s
ComplexStr(s) == Join([k \in 1..Len(s) |-> (IF k = 1 THEN "" ELSE IF s[k].comb = " " THEN " " ELSE " " \o s[k].comb \o " ") \o CompoundStr(s[k].c)], "", 1)
SelStr(sel) == Join([k \in 1..Len(sel) |-> ComplexStr(sel[k])], ", ", 1)
ClsStr(S) == IF S = {} THEN "" ELSE " class='" \o (IF "x" \in S THEN "x " ELSE "") \o (IF "y" \in S THEN "y " ELSE "") \o (IF "Ad" \in S THEN "Ad" ELSE "") \o "'"
Attrs(n) == ClsStr(n.cls) \o (IF n.id = "" THEN "" ELSE " id=" \o n.id) \o (IF n.att = "" THEN "" ELSE " data-x=" \o n.att) \o (IF n.tag = "a" THEN " href=/l" ELSE "")
Root(n) == n.tag \in {"html", "head", "body"}
RECURSIVE Html(_, _, _, _)
(* the nodes of S with parent p (or that are tops, for p = -1), from number k on *)
Html(d, S, p, k) ==
  IF k > Len(d) THEN ""
  ELSE (IF k \notin S \/ d[k].par # p THEN ""
        ELSE IF d[k].tag = "" THEN d[k].txt
        ELSE IF Root(d[k]) THEN Html(d, S, k, k + 1)
        ELSE "<" \o d[k].tag \o Attrs(d[k]) \o ">" \o Html(d, S, k, k + 1) \o (IF d[k].tag \in {"hr", "br"} THEN "" ELSE "</" \o d[k].tag \o ">"))
       \o Html(d, S, p, k + 1)
Whole(d) == Html(d, 1..Len(d), 0, 1)
(* the document of what remains: its tops have no parent *)
Rest(d, inc, exc) == LET T == Tops(d, inc, exc)
                         R == Remain(d, inc, exc)
                     IN Html([k \in 1..Len(d) |-> IF k \in T THEN [d[k] EXCEPT !.par = 0] ELSE d[k]], R, 0, 1)
RECURSIVE WordsOf(_, _, _)
WordsOf(d, S, k) == IF k > Len(d) THEN <<>> ELSE (IF k \in S /\ d[k].tag = "" /\ d[k].txt # " " THEN <<d[k].txt>> ELSE <<>>) \o WordsOf(d, S, k + 1)
=============================================================================
