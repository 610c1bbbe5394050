---------------------------- MODULE RegistryGen ----------------------------
(* Generates histories: registrations and conversions on two converters, in *)
(* any order.  Profile says what the history is mostly about:               *)
(*   order   handlers of all kinds and priorities                           *)
(*   many    many handlers of the same kind                                 *)
(*   types   tag types, RendererFor, the given strategies, the base plugin  *)
(*   state   context values, state, panics, two converters                  *)
(*   errors  plugins and options that fail                                  *)
EXTENDS RegistryModel, Json

CONSTANTS Profile, MaxOps, MaxDoc

VARIABLES ops, reg, id, pc, doc, open, docs, cur
vars == <<ops, reg, id, pc, doc, open, docs, cur>>

Prios == IF Profile = "many" THEN {1, 2, 2, 3} ELSE {-5, 0, 1, 99, 101, 499, 501, 502, 999, 1001, 100000}
TypeElems == {"div", "p", "b", "span", "x-a", "script", "code", "li", "h2", "ul", "dd", "main", "em", "u"}
Tags == IF Profile = "types" THEN (TypeElems \ {"dd", "main", "em"}) \cup {"br"} ELSE {"b", "i", "x-a", "span"}
RenActs == CASE Profile = "order" -> {"next", "wnext", "own", "kids", "twice", "next"}
             [] Profile = "many" -> {"next", "next", "next", "next", "wnext", "kids"}
             [] Profile = "types" -> {"next", "plain", "plain", "html", "wrap", "kids"}
             [] Profile = "state" -> {"next", "upd", "state", "ctx", "ctx", "kids", "panic", "nest"}
             [] OTHER -> {"next", "kids", "own"}
Log3 == CASE Profile = "state" -> {"none", "upd", "state"} [] OTHER -> {"none"}

Cs == IF Profile \in {"order", "many"} THEN {1} ELSE {1, 2}
G(c) == reg[c]

Init == /\ ops = <<>> /\ reg = [c \in 1..2 |-> NoReg] /\ id = 1 /\ pc = "new" /\ doc = <<>> /\ open = <<>> /\ docs = <<>> /\ cur = 0

Plug(name, fail, k, sub) == [op |-> "plugin", id |-> k, name |-> name, fail |-> fail, sub |-> sub]
SubOps(k) == {<<>>, <<[op |-> "ren", id |-> k + 1, pri |-> 300, act |-> "kids"]>>,
              <<[op |-> "text", id |-> k + 1, pri |-> 300, act |-> "none"], [op |-> "ren", id |-> k + 2, pri |-> 301, act |-> "next"]>>}
Options(k) ==
  CASE Profile = "types" -> {<<Plug("base", FALSE, k, <<>>)>>, <<Plug("base", FALSE, k, <<>>)>>, <<>>}
    [] Profile = "errors" -> {<<>>, <<[op |-> "mode", v |-> "smart"]>>, <<[op |-> "err", id |-> k]>>, <<[op |-> "err", id |-> k], Plug("p1", FALSE, k + 5, <<>>)>>,
                              <<Plug("p1", TRUE, k, <<>>)>>, <<Plug("base", FALSE, k, <<>>), Plug("commonmark", FALSE, k + 1, <<[op |-> "ren", id |-> k + 2, pri |-> 300, act |-> "kids"]>>)>>,
                              <<Plug("commonmark", FALSE, k + 1, <<[op |-> "ren", id |-> k + 2, pri |-> 300, act |-> "kids"]>>)>>,
                              <<Plug("p1", FALSE, k, <<[op |-> "ren", id |-> k + 2, pri |-> 300, act |-> "kids"]>>), [op |-> "mode", v |-> "disabled"]>>}
    [] OTHER -> {<<[op |-> "mode", v |-> "smart"]>>, <<[op |-> "mode", v |-> "disabled"]>>, <<>>}

NewConv == /\ pc = "new"
           /\ \E c \in Cs : ~G(c).made /\ (c = 2 => G(1).made)
                /\ \E x \in Options(id) :
                     /\ ops' = Append(ops, [op |-> "new", c |-> c, opts |-> x])
                     /\ reg' = [reg EXCEPT ![c] = New([NoReg EXCEPT !.made = TRUE], x)]
           /\ pc' = IF \A c \in Cs : reg'[c].made THEN "run" ELSE "new"
           /\ id' = id + 10 /\ UNCHANGED <<doc, open, docs, cur>>

FreePri(c, tag, p) == \A k \in 1..Len(G(c).types) : G(c).types[k].tag = tag => G(c).types[k].pri # p
IsBase(c) == "base" \in G(c).plugins
Kinds == CASE Profile = "types" -> {"type", "type", "for", "for", "ren", "text", "post"}
           [] Profile = "errors" -> {"plugin", "plugin", "plugin", "ren", "text"}
           [] Profile = "many" -> {"ren", "ren", "text", "post", "pre", "une"}
           [] OTHER -> {"pre", "ren", "ren", "text", "post", "une", "chars", "for"}
RegOp(c, kind) ==
  CASE kind = "pre" -> {[op |-> "pre", c |-> c, id |-> id, pri |-> p, act |-> a] : p \in Prios, a \in Log3 \cup {"text"}}
    [] kind = "ren" -> {[op |-> "ren", c |-> c, id |-> id, pri |-> p, act |-> a] : p \in Prios, a \in (IF Profile = "types" THEN {"next", "wnext"} ELSE RenActs \ {"html"})}
    [] kind = "text" -> {[op |-> "text", c |-> c, id |-> id, pri |-> p, act |-> a] : p \in Prios, a \in Log3 \cup (IF IsBase(c) THEN {} ELSE {"esc"}) \cup (IF Profile \in {"order", "many", "state"} THEN {"empty"} ELSE {})}
    [] kind = "post" -> {[op |-> "post", c |-> c, id |-> id, pri |-> p, act |-> a] : p \in Prios, a \in Log3 \cup (IF IsBase(c) THEN {} ELSE {"une"}) \cup (IF Profile \in {"order", "many"} THEN {"empty"} ELSE {})}
    [] kind = "une" -> IF IsBase(c) THEN {} ELSE {[op |-> "une", c |-> c, id |-> id, pri |-> p, ch |-> ch, ret |-> r] : p \in Prios, ch \in {"*", "_", "#", "u"}, r \in {1, 1, 2, 3, 4}}
    [] kind = "chars" -> IF IsBase(c) THEN {} ELSE {[op |-> "chars", c |-> c, chs |-> x] : x \in {<<"*">>, <<"*", "_">>, <<"#">>, <<"_", "#", "u">>}}
    [] kind = "type" -> {[op |-> "type", c |-> c, tag |-> t, ty |-> y, pri |-> p] : t \in Tags \cup {"#comment"}, y \in {"block", "inline", "remove"}, p \in {q \in Prios : TRUE}}
    [] kind = "for" -> {[op |-> "for", c |-> c, id |-> id, pri |-> p, tag |-> t, ty |-> y, act |-> a] : p \in Prios, t \in Tags, y \in {"block", "inline"}, a \in RenActs}
    [] kind = "plugin" -> {[Plug(nm, f, id, s) EXCEPT !.id = id] @@ [c |-> c] : nm \in {"p1", "p2", "base", "commonmark", ""}, f \in {FALSE, FALSE, TRUE}, s \in SubOps(id)}
    [] OTHER -> {}

RegStep == /\ pc = "run" /\ Len(ops) < MaxOps
           /\ \E c \in Cs : \E kind \in Kinds : \E x \in RegOp(c, kind) :
                /\ x.op \in {"type", "for"} => FreePri(c, x.tag, x.pri)
                (* at most one base plugin, and only where nothing contradicts it *)
                /\ x.op = "plugin" => (x.name = "base" => ~IsBase(c) /\ ~x.fail) /\ (x.fail => x.name # "")
                /\ ops' = Append(ops, x) /\ reg' = [reg EXCEPT ![c] = Reg(@, x)]
           /\ id' = id + 5 /\ UNCHANGED <<pc, doc, open, docs, cur>>

(* a conversion: of a new document or one that was there before *)
Elems == IF Profile = "types" THEN TypeElems ELSE {"b", "i", "x-a", "span"}
VoidElems == IF Profile = "types" THEN {"br", "img", "x-a"} ELSE {"i", "x-a"}
Words == IF Profile = "types" THEN {<<"v">>, <<" ", "w">>, <<"x", " ", " ", "y", " ">>, <<" ">>, <<"NL">>} ELSE {<<"v">>, <<"w", " ", "*">>, <<"*", "*">>, <<"u", "_">>, <<"#", "u", "*", "_">>}
Tk(k, e, s) == [k |-> k, e |-> e, s |-> s, n |-> Len(doc) + 1]
StartDoc == /\ pc = "run" /\ Len(ops) < MaxOps /\ (\A c \in Cs : G(c).made)
            /\ doc' = <<>> /\ open' = <<>> /\ pc' = "doc"
            /\ UNCHANGED <<ops, reg, id, docs, cur>>
Room == pc = "doc" /\ Len(doc) + Len(open) < MaxDoc
DocStep == \/ /\ Room
              /\ \/ \E s \in Words : (IF doc = <<>> \/ Profile = "types" THEN TRUE ELSE doc[Len(doc)].k # "t") /\ doc' = Append(doc, Tk("t", "", s)) /\ open' = open
                 \/ \E e \in VoidElems : doc' = Append(doc, Tk("v", e, <<>>)) /\ open' = open
                 \/ Profile = "types" /\ doc' = Append(doc, Tk("m", "", <<>>)) /\ open' = open
                 \/ Len(doc) + Len(open) + 2 < MaxDoc /\ \E e \in Elems : doc' = Append(doc, Tk("o", e, <<>>)) /\ open' = Append(open, e)
              /\ UNCHANGED <<ops, reg, id, pc, docs, cur>>
           \/ /\ pc = "doc" /\ open # <<>> /\ (IF doc = <<>> THEN FALSE ELSE doc[Len(doc)].k # "o")
              /\ doc' = Append(doc, Tk("c", "", <<>>)) /\ open' = SubSeq(open, 1, Len(open) - 1)
              /\ UNCHANGED <<ops, reg, id, pc, docs, cur>>
EndDoc == /\ pc = "doc" /\ open = <<>> /\ Len(doc) >= MaxDoc - 3
          /\ docs' = Append(docs, doc) /\ pc' = "conv" /\ cur' = Len(docs) + 1
          /\ UNCHANGED <<ops, reg, id, doc, open>>
Again == /\ pc = "run" /\ docs # <<>> /\ Len(ops) < MaxOps
         /\ \E k \in 1..Len(docs) : cur' = k
         /\ pc' = "conv" /\ UNCHANGED <<ops, reg, id, doc, open, docs>>
Doms == IF Profile = "state" THEN {"", "http://d1", "http://d2"} ELSE IF Profile = "types" THEN {"", "http://d1"} ELSE {""}
Usrs == IF Profile = "state" THEN {"", "u1", "u2", "boom"} ELSE {""}
Conv == /\ pc = "conv"
        /\ \E c \in Cs : \E dm \in Doms : \E u \in Usrs : \E cn \in (IF u = "" THEN {FALSE} ELSE {TRUE, FALSE}) :
             ops' = Append(ops, [op |-> "conv", c |-> c, doc |-> docs[cur], dom |-> dm, usr |-> u, canc |-> cn])
        /\ pc' = "run" /\ UNCHANGED <<reg, id, doc, open, docs, cur>>
Done == /\ pc = "run" /\ Len(ops) >= MaxOps - 1 /\ ops[Len(ops)].op = "conv"
        /\ PrintT("CASE " \o ToJson([ops |-> ops]))
        /\ pc' = "done" /\ UNCHANGED <<ops, reg, id, doc, open, docs, cur>>
(* the last operation is a conversion *)
Finish == /\ pc = "run" /\ Len(ops) >= MaxOps /\ ops[Len(ops)].op # "conv" /\ docs # <<>>
          /\ \E c \in Cs : ops' = Append(ops, [op |-> "conv", c |-> c, doc |-> docs[Len(docs)], dom |-> "", usr |-> "", canc |-> FALSE])
          /\ UNCHANGED <<reg, id, pc, doc, open, docs, cur>>
Abort == /\ pc = "run" /\ Len(ops) >= MaxOps /\ docs = <<>> /\ doc' = <<>> /\ open' = <<>> /\ pc' = "doc"
         /\ UNCHANGED <<ops, reg, id, docs, cur>>
Next == NewConv \/ RegStep \/ StartDoc \/ DocStep \/ EndDoc \/ Again \/ Conv \/ Done \/ Finish \/ Abort
Spec == Init /\ [][Next]_vars
============================================================================
