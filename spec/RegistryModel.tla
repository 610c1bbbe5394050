--------------------------- MODULE RegistryModel ---------------------------
(* The converter as a state machine: what has been registered, and what a   *)
(* conversion must do with it, one handler call after the other.            *)
(*                                                                          *)
(* registry: [pre, ren, txt, post, une  -- sequences of handlers            *)
(*            esc   -- the escaped characters                               *)
(*            types -- sequence of [tag, ty, pri]                           *)
(*            plugins, errs, mode]                                          *)
(* handler:  [id, pri, act, tag, ch, ret, base]; base: it belongs to the    *)
(*           base plugin, so its calls are not recorded                     *)
EXTENDS WsModel

Blocks2 == {"div", "p", "blockquote", "section", "hr", "li", "h2", "ul", "dd", "main"}
Inlines2 == {"script", "b", "i", "span", "br", "img", "code", "em", "u"}
Voids2 == {"br", "img", "hr", "input", "wbr", "embed", "link", "meta"}

NoReg == [pre |-> <<>>, ren |-> <<>>, txt |-> <<>>, post |-> <<>>, une |-> <<>>, esc |-> {}, types |-> <<>>,
          plugins |-> {}, errs |-> {}, mode |-> "smart", made |-> FALSE]
H(id, pri, act, tag, ch, ret, base) == [id |-> id, pri |-> pri, act |-> act, tag |-> tag, ch |-> ch, ret |-> ret, base |-> base]
BaseH(pri, act) == H(0, pri, act, "", "", 0, TRUE)

Early == 100
Standard == 500
Late == 1000
RemovedByBase == {"#comment", "head", "script", "style", "link", "meta", "iframe", "noscript", "input", "textarea"}

---------------------------------------------------------------------------
(* registrations *)
BasePlugin(g) ==
  [g EXCEPT !.types = @ \o [k \in 1..Cardinality(RemovedByBase) |-> [tag |-> SetToSeq(RemovedByBase)[k], ty |-> "remove", pri |-> Standard]],
            !.pre = @ \o <<BaseH(Early, "remove"), BaseH(Late, "collapse")>>,
            !.txt = @ \o <<BaseH(Standard, "esc")>>,
            !.post = @ \o <<BaseH(Standard, "trim"), BaseH(Standard + 20, "une")>>]

RECURSIVE Reg(_, _)
RECURSIVE RegAll(_, _)
RegAll(g, ops) == IF ops = <<>> THEN g ELSE RegAll(Reg(g, ops[1]), Tail(ops))
Reg(g, o) ==
  CASE o.op = "pre"  -> [g EXCEPT !.pre = Append(@, H(o.id, o.pri, o.act, "", "", 0, FALSE))]
    [] o.op = "ren"  -> [g EXCEPT !.ren = Append(@, H(o.id, o.pri, o.act, "*", "", 0, FALSE))]
    [] o.op = "for"  -> [g EXCEPT !.ren = Append(@, H(o.id, o.pri, o.act, o.tag, "", 0, FALSE)),
                                  !.types = Append(@, [tag |-> o.tag, ty |-> o.ty, pri |-> o.pri])]
    [] o.op = "text" -> [g EXCEPT !.txt = Append(@, H(o.id, o.pri, o.act, "", "", 0, FALSE))]
    [] o.op = "post" -> [g EXCEPT !.post = Append(@, H(o.id, o.pri, o.act, "", "", 0, FALSE))]
    [] o.op = "une"  -> [g EXCEPT !.une = Append(@, H(o.id, o.pri, "", "", o.ch, o.ret, FALSE))]
    [] o.op = "chars" -> [g EXCEPT !.esc = @ \cup {o.chs[k] : k \in 1..Len(o.chs)}]
    [] o.op = "type" -> [g EXCEPT !.types = Append(@, [tag |-> o.tag, ty |-> o.ty, pri |-> o.pri])]
    [] o.op = "plugin" ->
         IF o.name = "" THEN [g EXCEPT !.errs = @ \cup {0}]
         ELSE LET g2 == [g EXCEPT !.plugins = @ \cup {o.name}]
                  g3 == IF o.name = "base" THEN BasePlugin(g2) ELSE RegAll(g2, o.sub)
              IN IF o.fail THEN [g3 EXCEPT !.errs = @ \cup {o.id}] ELSE g3
    [] o.op = "mode" -> [g EXCEPT !.mode = o.v]
    [] o.op = "err" -> [g EXCEPT !.errs = @ \cup {o.id}]
    [] OTHER -> g
(* the options of NewConverter; nothing behind a failing one is applied *)
RECURSIVE New(_, _)
New(g, opts) ==
  IF opts = <<>> THEN g
  ELSE IF opts[1].op = "err" THEN Reg(g, opts[1])
  ELSE New(Reg(g, opts[1]), Tail(opts))

(* why a conversion must fail *)
MustFail(g) ==
  IF g.errs # {} THEN "registered"
  ELSE IF g.ren = <<>> THEN "norender"
  ELSE IF "commonmark" \in g.plugins /\ "base" \notin g.plugins THEN "nobase"
  ELSE ""

---------------------------------------------------------------------------
TypeOf(g, name) ==
  LET S == {k \in 1..Len(g.types) : g.types[k].tag = name} IN
  IF S # {} THEN g.types[CHOOSE k \in S : \A j \in S : g.types[k].pri < g.types[j].pri \/ (g.types[k].pri = g.types[j].pri /\ k <= j)].ty
  ELSE IF name \in Blocks2 THEN "block"
  ELSE IF name \in Inlines2 THEN "inline"
  ELSE ""

(* the handlers that may be the next one *)
NextOf(hs, rem) == {k \in rem : \A j \in rem : hs[k].pri <= hs[j].pri}

---------------------------------------------------------------------------
(* documents: tokens as in WsModel, with their number n *)
NameOf(x) == CASE x.k = "m" -> "#comment" [] x.k = "t" -> "#text" [] OTHER -> x.e
RECURSIVE Kids2(_, _, _)
Kids2(d, k, e) == IF k > e THEN <<>> ELSE <<k>> \o Kids2(d, IF d[k].k = "o" THEN Close(d, k + 1, 1) + 1 ELSE k + 1, e)
Kids(d, p) == IF p = 0 THEN Kids2(d, 1, Len(d)) ELSE IF d[p].k = "o" THEN Kids2(d, p + 1, Close(d, p + 1, 1) - 1) ELSE <<>>
Num(d, p) == IF p = 0 THEN 0 ELSE d[p].n
Name(d, p) == IF p = 0 THEN "#document" ELSE NameOf(d[p])

RECURSIVE Html(_, _, _)
Html(d, k, e) ==
  IF k > e THEN <<>>
  ELSE LET x == d[k] IN
    CASE x.k = "t" -> x.s \o Html(d, k + 1, e)
      [] x.k = "m" -> Chars("<!-- hidden -->") \o Html(d, k + 1, e)
      [] x.k = "v" -> (IF x.e \in Voids2 THEN <<"<">> \o Chars(x.e) \o <<"/", ">">> ELSE <<"<">> \o Chars(x.e) \o <<">", "<", "/">> \o Chars(x.e) \o <<">">>) \o Html(d, k + 1, e)
      [] x.k = "o" -> LET c == Close(d, k + 1, 1) IN
                      <<"<">> \o Chars(x.e) \o <<">">> \o Html(d, k + 1, c - 1) \o <<"<", "/">> \o Chars(x.e) \o <<">">> \o Html(d, c + 1, e)
      [] OTHER -> Html(d, k + 1, e)
HtmlOf(d, p) == Html(d, p, IF d[p].k = "o" THEN Close(d, p + 1, 1) ELSE p)

RECURSIVE RemoveTypes(_, _, _)
RemoveTypes(g, d, k) ==
  IF k > Len(d) THEN <<>>
  ELSE IF d[k].k \in {"o", "v", "m"} /\ TypeOf(g, NameOf(d[k])) = "remove"
       THEN RemoveTypes(g, d, IF d[k].k = "o" THEN Close(d, k + 1, 1) + 1 ELSE k + 1)
       ELSE <<d[k]>> \o RemoveTypes(g, d, k + 1)
RECURSIVE MergeText(_)
MergeText(d) == IF Len(d) < 2 THEN d
                ELSE IF d[1].k = "t" /\ d[2].k = "t" THEN MergeText(<<[d[1] EXCEPT !.s = @ \o d[2].s]>> \o From(d, 3))
                ELSE <<d[1]>> \o MergeText(Tail(d))
KindsOf(g, d) ==
  LET names == {NameOf(d[k]) : k \in {j \in 1..Len(d) : d[j].k \in {"o", "v"}}} IN
  [b |-> {n \in names : TypeOf(g, n) = "block"}, v |-> Voids2, p |-> {"pre", "code"}]

---------------------------------------------------------------------------
(* Escaping: a mark in front of every character that may need a backslash,  *)
(* which the un-escapers turn into one or not                               *)
Mark == "BEL"
Escape(g, s) ==
  IF g.mode = "disabled" THEN s
  ELSE FoldLeft(LAMBDA a, c : a \o (IF c \in g.esc THEN <<Mark, c>> ELSE <<c>>), <<>>, s)
============================================================================
