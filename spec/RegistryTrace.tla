--------------------------- MODULE RegistryTrace ---------------------------
(* Replays recorded histories (registrations and conversions on several     *)
(* converters) against the state machine of RegistryModel.  Every recorded  *)
(* handler call must be a step of the machine, with exactly the arguments   *)
(* that the machine passes.                                                 *)
EXTENDS RegistryModel, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)

VARIABLES i,     \* the record
          o,     \* operations done
          reg,   \* the registries of the converters
          cv,    \* the running conversion
          n      \* events of it consumed
vars == <<i, o, reg, cv, n>>
R == Recs[i]
Op == R.ops[o + 1]
Idle == [ph |-> "idle"]
Ev == Op.ev
G == reg[Op.c]

Init == /\ i \in 1..Len(Recs) /\ o = 0 /\ n = 0 /\ cv = Idle
        /\ reg = [c \in 1..2 |-> NoReg]

Say(v, info) == /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(v)))
                /\ v = {} \/ PrintT("D " \o ToString(R.id) \o " " \o ToString(<<"op", o + 1, "event", n + 1, info>>))
Stop == cv' = [ph |-> "stop"] /\ UNCHANGED <<i, o, reg, n>>

DoReg == /\ cv.ph = "idle" /\ o < Len(R.ops) /\ Op.op # "conv"
         /\ reg' = [reg EXCEPT ![Op.c] = IF Op.op = "new" THEN New([NoReg EXCEPT !.made = TRUE], Op.opts) ELSE Reg(@, Op)]
         /\ o' = o + 1 /\ UNCHANGED <<i, cv, n>>

(* a conversion starts, or fails at once *)
Failing == MustFail(G)
FailOK == Op.err # "" /\ Op.err # "PANIC" /\ Op.out = <<>> /\ Ev = <<>>
          /\ (Failing # "registered" \/ ({Op.is[k] : k \in 1..Len(Op.is)} \subseteq G.errs /\ (0 \in G.errs \/ Op.is # <<>>)))
Start == /\ cv.ph = "idle" /\ o < Len(R.ops) /\ Op.op = "conv"
         /\ IF Failing # ""
            THEN IF FailOK THEN o' = o + 1 /\ UNCHANGED <<i, reg, cv, n>>
                 ELSE Say({"error"}, <<"must fail", Failing, Op.err>>) /\ Stop
            ELSE /\ cv' = [ph |-> "pre", doc |-> Op.doc, rem |-> {k \in 1..Len(G.pre) : TRUE}, stack |-> <<>>, out |-> <<>>, st |-> ""]
                 /\ n' = 0 /\ UNCHANGED <<i, o, reg>>

---------------------------------------------------------------------------
(* What the next recorded call must be: [k, H -- the handlers, cand -- the  *)
(* possible ones, n, ty, val, s]                                            *)
Top == cv.stack[Len(cv.stack)]
Pop == SubSeq(cv.stack, 1, Len(cv.stack) - 1)
Rest(s) == [f |-> "str", s |-> s]

Expect ==
  CASE cv.ph = "pre" -> [k |-> "pre", hs |-> G.pre, rem |-> cv.rem, n |-> -1, ty |-> "", val |-> "", s |-> <<>>]
    [] cv.ph = "ren" /\ cv.stack # <<>> /\ Top.f = "node" ->
         [k |-> "ren", hs |-> G.ren, rem |-> Top.rem, n |-> Num(cv.doc, Top.p), ty |-> TypeOf(G, Name(cv.doc, Top.p)), val |-> Top.val, s |-> <<>>]
    [] cv.ph = "ren" /\ cv.stack # <<>> /\ Top.f = "text" ->
         [k |-> "text", hs |-> G.txt, rem |-> Top.rem, n |-> -1, ty |-> "", val |-> Top.val, s |-> Top.s]
    [] cv.ph = "post" -> [k |-> "post", hs |-> G.post, rem |-> cv.rem, n |-> -1, ty |-> "", val |-> "", s |-> cv.out]
    [] OTHER -> [k |-> "none", hs |-> <<>>, rem |-> {}, n |-> -1, ty |-> "", val |-> "", s |-> <<>>]

(* handlers that are not recorded: those of the base plugin and those for   *)
(* another tag                                                              *)
Mute(h, k, p) == h.base \/ (k = "ren" /\ h.tag # "*" /\ h.tag # Name(cv.doc, p))
MuteNow == LET x == Expect IN {k \in NextOf(x.hs, x.rem) : Mute(x.hs[k], x.k, IF x.k = "ren" THEN Top.p ELSE 0)}
Waiting == Expect.rem # {}

Node(p, val) == [f |-> "node", p |-> p, rem |-> {k \in 1..Len(G.ren) : TRUE}, val |-> val]
Text(p, val) == [f |-> "text", p |-> p, rem |-> {k \in 1..Len(G.txt) : TRUE}, val |-> val, s |-> cv.doc[p].s]
(* frames for the children of p, the first one on top *)
KidFrames(p, val) == LET q == Kids(cv.doc, p) IN
  [k \in 1..Len(q) |-> LET x == q[Len(q) + 1 - k] IN IF cv.doc[x].k = "t" THEN Text(x, val) ELSE Node(x, val)]
Surrounded(st, a, p, val, b) == st \o <<Rest(b)>> \o KidFrames(p, val) \o <<Rest(a)>>
Sep(ty) == IF ty = "block" THEN <<"NL", "NL">> ELSE <<>>

Silent ==   \* steps without a recorded call
  /\ cv.ph \in {"pre", "ren", "post"}
  /\ IF MuteNow # {} THEN
       LET k == CHOOSE k \in MuteNow : TRUE  h == Expect.hs[k] IN
       CASE cv.ph = "pre" ->
              cv' = [cv EXCEPT !.rem = @ \ {k},
                               !.doc = CASE h.act = "remove" -> MergeText(RemoveTypes(G, @, 1))
                                         [] h.act = "collapse" -> Collapsed(@, KindsOf(G, @))
                                         [] OTHER -> @]
         [] cv.ph = "post" -> cv' = [cv EXCEPT !.rem = @ \ {k}, !.out = IF h.act = "trim" THEN Trim(@, {" ", "NL"}) ELSE @]
         [] Top.f = "node" -> cv' = [cv EXCEPT !.stack[Len(cv.stack)].rem = @ \ {k}]
         [] OTHER -> cv' = [cv EXCEPT !.stack[Len(cv.stack)].rem = @ \ {k}, !.stack[Len(cv.stack)].s = Escape(G, @)]
     ELSE
       /\ ~Waiting
       /\ CASE cv.ph = "pre" -> cv' = [cv EXCEPT !.ph = "ren", !.stack = <<[f |-> "node", p |-> 0, rem |-> {k \in 1..Len(G.ren) : TRUE}, val |-> ""]>>]
            [] cv.ph = "post" -> FALSE
            [] cv.stack = <<>> -> cv' = [cv EXCEPT !.ph = "post", !.rem = {k \in 1..Len(G.post) : TRUE}]
            [] Top.f = "str" -> cv' = [cv EXCEPT !.out = @ \o Top.s, !.stack = Pop]
            [] Top.f = "text" -> cv' = [cv EXCEPT !.out = @ \o Top.s, !.stack = Pop]
            [] OTHER -> LET s == Sep(TypeOf(G, Name(cv.doc, Top.p))) IN cv' = [cv EXCEPT !.stack = Surrounded(Pop, s, Top.p, Top.val, s)]
  /\ UNCHANGED <<i, o, reg, n>>

(* the state after handler h was called *)
Id(h) == Chars(ToString(h.id))
St2(h) == CASE h.act = "state" -> ToString(h.id) [] h.act \in {"upd", "nest"} -> cv.st \o ToString(h.id) [] OTHER -> cv.st
After(h, k) ==
  LET d == cv.doc IN
  CASE cv.ph = "pre" -> [cv EXCEPT !.rem = @ \ {k}, !.st = St2(h),
                                   !.doc = IF h.act = "text" THEN Append(@, [k |-> "t", e |-> "", s |-> Id(h), n |-> 1000 + h.id]) ELSE @]
    [] cv.ph = "post" -> [cv EXCEPT !.rem = @ \ {k}, !.st = St2(h), !.out = IF h.act = "empty" THEN <<>> ELSE <<"p">> \o Id(h) \o <<":">> \o @]
    [] Top.f = "text" -> [cv EXCEPT !.stack[Len(cv.stack)].rem = @ \ {k}, !.st = St2(h),
                                    !.stack[Len(cv.stack)].s = IF h.act = "esc" THEN Escape(G, @) ELSE IF h.act = "empty" THEN <<>> ELSE @ \o <<"t">> \o Id(h)]
    [] h.act \in {"next", "upd", "state", "panic"} -> [cv EXCEPT !.stack[Len(cv.stack)].rem = @ \ {k}, !.st = St2(h)]
    (* a conversion inside of the conversion has a state and a domain of its own *)
    [] h.act = "nest" -> [cv EXCEPT !.stack[Len(cv.stack)].rem = @ \ {k}, !.st = St2(h), !.out = @ \o <<"c">> \o Id(h) \o <<"i", ";">>]
    [] h.act = "wnext" -> [cv EXCEPT !.stack[Len(cv.stack)].rem = @ \ {k}, !.out = @ \o <<"n">> \o Id(h)]
    [] h.act = "own" -> [cv EXCEPT !.stack = Pop, !.out = @ \o <<"o">> \o Id(h)]
    [] h.act = "kids" -> [cv EXCEPT !.stack = Surrounded(Pop, <<"(">> \o Id(h), Top.p, Top.val, <<")">>)]
    [] h.act = "ctx" -> [cv EXCEPT !.stack = Surrounded(Pop, <<"{">> \o Id(h), Top.p, ToString(h.id), <<"}">>)]
    [] h.act = "twice" -> [cv EXCEPT !.stack = Surrounded(Surrounded(Pop, <<>>, Top.p, Top.val, <<"]">>), <<"[">>, Top.p, Top.val, <<"/">>)]
    [] h.act = "html" -> LET s == Sep(TypeOf(G, Name(d, Top.p))) IN [cv EXCEPT !.stack = Pop, !.out = @ \o s \o HtmlOf(d, Top.p) \o s]
    [] h.act = "wrap" -> LET e == Chars(Name(d, Top.p)) IN
         [cv EXCEPT !.stack = Surrounded(Pop, <<"<">> \o e \o <<">", "NL", "NL">>, Top.p, Top.val, <<"NL", "NL", "<", "/">> \o e \o <<">">>)]
    [] h.act = "plain" -> LET s == Sep(TypeOf(G, Name(d, Top.p))) IN [cv EXCEPT !.stack = Surrounded(Pop, s, Top.p, Top.val, s)]
    [] OTHER -> cv
Panics(h) == h.act = "panic" /\ Op.usr = "boom"

Live == cv.ph \in {"pre", "ren", "post"} /\ MuteNow = {} /\ Waiting
HasBase == "base" \in G.plugins
Wrong(x, e, k) ==   \* what is wrong with event e, as a call of handler k
  (IF k = 0 THEN {"order"} ELSE {})
  \cup (IF e.ty = x.ty THEN {} ELSE {"type"})
  \cup (IF e.st = cv.st /\ e.val = x.val /\ e.dom = Op.dom /\ e.usr = Op.usr THEN {} ELSE {"state"})
  \cup (IF x.k \in {"pre", "ren"} \/ (x.k = "post" /\ HasBase) \/ e.s = x.s THEN {} ELSE IF x.k = "post" /\ cv.rem = {j \in 1..Len(G.post) : TRUE} THEN {"out"} ELSE {"content"})

(* a recorded call is consumed *)
Call ==
  /\ Live
  /\ IF n >= Len(Ev) THEN Say({"order"}, <<"missing", Expect.k>>) /\ Stop
     ELSE LET x == Expect
              e == Ev[n + 1]
              S == {k \in NextOf(x.hs, x.rem) : e.k = x.k /\ e.id = x.hs[k].id /\ (x.k # "ren" \/ e.n = x.n)}
              k == IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
              w == Wrong(x, e, k)
          IN IF k = 0 \/ w # {} THEN Say(IF k = 0 THEN {"order"} ELSE w, <<"call", e, "expected", x.k, x.n, x.ty, x.val, cv.st, x.s>>) /\ Stop
             ELSE IF Panics(x.hs[k])
             THEN IF Op.err = "PANIC" /\ n + 1 = Len(Ev)
                  THEN cv' = Idle /\ n' = 0 /\ o' = o + 1 /\ UNCHANGED <<i, reg>>
                  ELSE Say({"order"}, <<"panic">>) /\ Stop
             ELSE /\ cv' = IF x.k = "post" /\ x.hs[k].act = "une" THEN [After(x.hs[k], k) EXCEPT !.ph = "une", !.out = <<>>] @@ [src |-> cv.out, j |-> 1, left |-> {}, back |-> x.hs[k]]
                           ELSE After(x.hs[k], k)
                  /\ n' = n + 1 /\ UNCHANGED <<i, o, reg>>

---------------------------------------------------------------------------
(* un-escaping: the un-escapers are asked for every mark that is followed   *)
(* by a character, until one takes it; it says how many characters it took  *)
AllUne == {k \in 1..Len(G.une) : TRUE}
AtMark == cv.j < Len(cv.src) /\ cv.src[cv.j] = Mark
UneStep ==
  /\ cv.ph = "une"
  /\ IF cv.j > Len(cv.src) \/ G.mode = "disabled"
     THEN /\ cv' = [f \in (DOMAIN cv) \ {"src", "j", "left", "back", "asked", "skip"} |->
                      IF f = "ph" THEN "post"
                      ELSE IF f = "out" THEN <<"p">> \o Id(cv.back) \o <<":">> \o (IF G.mode = "disabled" THEN cv.src ELSE cv.out) ELSE cv[f]]
          /\ UNCHANGED n
     ELSE IF cv.src[cv.j] # Mark THEN cv' = [cv EXCEPT !.out = Append(@, cv.src[cv.j]), !.j = @ + 1] /\ UNCHANGED n
     ELSE IF ~AtMark \/ AllUne = {} THEN cv' = [cv EXCEPT !.j = @ + 1] /\ UNCHANGED n
     ELSE LET left == IF cv.left = {} THEN AllUne ELSE cv.left
              e == IF n < Len(Ev) THEN Ev[n + 1] ELSE [k |-> "end"]
              S == {k \in NextOf(G.une, left) : e.k = "une" /\ e.id = G.une[k].id /\ e.j = cv.j}
          IN IF S = {} THEN FALSE
             ELSE LET k == CHOOSE k \in S : TRUE  h == G.une[k] IN
                  /\ n' = n + 1
                  /\ IF h.ch = cv.src[cv.j + 1]
                     (* taken: the marks within the next ret - 1 places are passed over *)
                     THEN LET to == IF h.ret <= 1 THEN cv.j ELSE Min2(cv.j + h.ret - 1, Len(cv.src)) IN
                          cv' = [cv EXCEPT !.out = @ \o <<"\\">> \o SelectSeq(SubSeq(cv.src, cv.j + 1, to), LAMBDA c : c # Mark), !.j = to + 1, !.left = {}]
                     ELSE IF left = {k} THEN cv' = [cv EXCEPT !.j = @ + 1, !.left = {}]
                     ELSE cv' = [cv EXCEPT !.left = left \ {k}]
  /\ UNCHANGED <<i, o, reg>>
UneWrong == /\ cv.ph = "une" /\ ~ENABLED UneStep
            /\ Say({"order"}, <<"un-escaper", cv.j, cv.src>>) /\ Stop

---------------------------------------------------------------------------
(* the end of a conversion *)
Trim2(s) == Trim(s, {" "})
RECURSIVE LinesOf(_)
LinesOf(s) == LET e == Find(s, 1, {"NL"}) IN
              IF s = <<>> THEN <<>> ELSE (IF Trim2(SubSeq(s, 1, e - 1)) = <<>> THEN <<>> ELSE <<Trim2(SubSeq(s, 1, e - 1))>>) \o LinesOf(From(s, e + 1))
NoMark(s) == SelectSeq(s, LAMBDA c : c # Mark)
SameOut == IF HasBase THEN LinesOf(Op.out) = LinesOf(NoMark(cv.out)) ELSE Op.out = cv.out
Final == /\ cv.ph = "post" /\ MuteNow = {} /\ ~Waiting
         /\ IF n < Len(Ev) THEN Say({"order"}, <<"extra call", Ev[n + 1]>>) /\ Stop
            ELSE IF Op.err # "" THEN Say({"error"}, <<Op.err>>) /\ Stop
            ELSE IF ~SameOut THEN Say({IF G.post # <<>> /\ ~HasBase THEN "content" ELSE "out"}, <<"want", cv.out>>) /\ Stop
            ELSE cv' = Idle /\ n' = 0 /\ o' = o + 1 /\ UNCHANGED <<i, reg>>
(* a registration or conversion that panicked on its own, or did not end *)
Done == /\ cv.ph = "idle" /\ o = Len(R.ops) /\ Say(IF R.crash = "" THEN {} ELSE {"error"}, <<R.crash>>) /\ Stop
Next == DoReg \/ Start \/ Silent \/ Call \/ UneStep \/ UneWrong \/ Final \/ Done
Spec == Init /\ [][Next]_vars
============================================================================
