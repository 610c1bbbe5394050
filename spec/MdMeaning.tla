------------------------------ MODULE MdMeaning ----------------------------
(* The meaning of a Markdown document: its block events with the inline     *)
(* content replaced by atoms.  Comments carry no meaning.                   *)
EXTENDS MdBlocks

IsComment(s) == LET t == Trim(s, WsNl) IN PrefixAt(t, 1, Chars("<!--")) /\ HtmlEnd(t, 1) = Len(t)

Cell(s, ext) == LET r == Inline(s, ext) IN [at |-> r.at, lk |-> r.lk]

MeaningOf(ev, ext) ==
  CASE ev.e = "para" -> LET r == Inline(ev.s, ext) IN
                        IF r.at = <<>> THEN <<>> ELSE <<[e |-> "para", at |-> r.at, lk |-> r.lk]>>
    [] ev.e = "head" -> LET r == Inline(ev.s, ext) IN <<[e |-> "head", n |-> ev.n, at |-> r.at, lk |-> r.lk]>>
    [] ev.e = "code" -> <<[e |-> "code", info |-> ev.info, ls |-> ev.ls]>>
    [] ev.e = "hr"   -> <<[e |-> "hr"]>>
    [] ev.e = "html" -> IF IsComment(ev.s) THEN <<>> ELSE <<[e |-> "html", s |-> ev.s]>>
    [] ev.e = "table" -> <<[e |-> "table", al |-> ev.al,
                            rows |-> [r \in 1..Len(ev.rows) |->
                                        [c \in 1..Len(ev.al) |->
                                           IF c <= Len(ev.rows[r]) THEN Cell(ev.rows[r][c], ext) ELSE [at |-> <<>>, lk |-> <<>>]]]]>>
    [] ev.e = "open" -> IF ev.k = "l" THEN <<[e |-> "open", k |-> "l", o |-> ev.o, n |-> ev.n]>> ELSE <<[e |-> "open", k |-> ev.k]>>
    [] ev.e = "close" -> <<[e |-> "close", k |-> ev.k]>>
    [] OTHER -> <<ev>>

Meaning(evs, ext) == FoldLeft(LAMBDA a, ev : a \o MeaningOf(ev, ext), <<>>, evs)
============================================================================
