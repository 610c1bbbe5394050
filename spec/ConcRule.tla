------------------------------- MODULE ConcRule -----------------------------
(* When is a history of registrations and lookups of one shared converter   *)
(* right (C13)?  The registrations are atomic effects on one log; every     *)
(* lookup of a conversion has to agree with the log as it was at some       *)
(* moment between its begin and its end.  The log of a run is not recorded: *)
(* poss is the set of all states that the converter can be in after the     *)
(* events so far, and the history is wrong when there is none left.         *)
(*   app   the effects so far                                               *)
(*   done  the open lookups that have taken place                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ids(s) == {s[k] : k \in 1..Len(s)}
(* what a lookup finds in a log *)
Found(l, app, kd) == {e \in app : kd[e] = l.kind /\ (l.q = 0 \/ e = l.q)}
Match(l, app, kd) == Len(l.res) = Cardinality(Ids(l.res)) /\ Found(l, app, kd) = Ids(l.res)
(* every lookup takes place as soon as it can: it changes nothing *)
Mark(p, op, kd) == [p EXCEPT !.done = @ \cup {l.x : l \in {m \in op : m.x \notin p.done /\ Match(m, p.app, kd)}}]
RECURSIVE Close(_, _, _, _)
(* all states that are reached by effects that are under way *)
Close(ps, op, pe, kd) ==
  LET new == UNION {{Mark([p EXCEPT !.app = @ \cup {e.x}], op, kd) : e \in {f \in pe : f.x \notin p.app}} : p \in ps} \ ps
  IN IF new = {} THEN ps ELSE Close(ps \cup new, op, pe, kd)

Start == [poss |-> {[app |-> {}, done |-> {}]}, open |-> {}, pend |-> {}, kinds |-> <<>>]
(* The state of the rule after one more event.  An event is the call or the *)
(* return of a registration x of a kind, or the begin or the end of lookup  *)
(* x (which already knows its result).                                      *)
After(s, e) ==
  LET kd == IF e.e = "call" THEN s.kinds @@ (e.x :> e.kind) ELSE s.kinds
      op == IF e.e = "begin" THEN s.open \cup {e} ELSE IF e.e = "end" THEN {l \in s.open : l.x # e.x} ELSE s.open
      pe == IF e.e = "call" THEN s.pend \cup {e} ELSE IF e.e = "ret" THEN {f \in s.pend : f.x # e.x} ELSE s.pend
      ps == CASE e.e = "end" -> {[p EXCEPT !.done = @ \ {e.x}] : p \in {q \in s.poss : e.x \in q.done}}
              [] e.e = "ret" -> {p \in s.poss : e.x \in p.app}
              [] e.e = "begin" -> Close({Mark(p, {e}, kd) : p \in s.poss}, op, pe, kd)
              [] OTHER -> Close(s.poss, op, pe, kd)
  IN [poss |-> ps, open |-> op, pend |-> pe, kinds |-> kd]
============================================================================
