---- MODULE XVal ----
EXTENDS MdMeaning, Json
Recs == ndJsonDeserialize("recs.ndjson")
FixAt(as) == Normal([i \in 1..Len(as) |-> [c |-> as[i].c, s |-> Range(as[i].s), l |-> as[i].l]])
Fix(ev) == CASE ev.e = "para" -> LET a == FixAt(ev.at) IN IF a = <<>> THEN <<>> ELSE <<[ev EXCEPT !.at = a]>>
  [] ev.e = "head" -> <<[ev EXCEPT !.at = FixAt(ev.at)]>>
  [] ev.e = "html" -> IF IsComment(ev.s) THEN <<>> ELSE <<ev>>
  [] ev.e = "table" -> <<[ev EXCEPT !.rows = [r \in 1..Len(ev.rows) |-> [c \in 1..Len(ev.rows[r]) |-> [ev.rows[r][c] EXCEPT !.at = FixAt(@)]]]]>>
  [] OTHER -> <<ev>>
Exp(x) == FoldLeft(LAMBDA a, ev : a \o Fix(ev), <<>>, x)
VARIABLE i
Init == i \in 1..Len(Recs)
Got(k) == Meaning(Blocks(Recs[k].lines, {"S", "T"}), {"S", "T"})
Check == LET g == Got(i) e == Exp(Recs[i].exp) IN g = e \/ PrintT(<<"BAD", Recs[i].src, "got", g, "exp", e>>)
Next == i < 0 /\ i' = i
====
