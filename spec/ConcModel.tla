------------------------------ MODULE ConcModel -----------------------------
(* How one converter serves several threads, in the small steps of its lock *)
(* (C13): a registration appends under the lock; a lookup copies under the  *)
(* lock and calls the handlers after it was released, in the order of their *)
(* priorities, and a handler may register.  The lock is fair: a reader does *)
(* not overtake a writer that waits, so that a reader that locks twice, or  *)
(* that registers under its lock, can wait for itself (Nested).             *)
(*                                                                          *)
(* TLC explores all interleavings.  It is checked that the lock excludes,   *)
(* that nobody waits for ever, that the handlers run in order, and that     *)
(* every history is accepted by the rule that judges the recorded ones: the *)
(* rule raises no false alarm.  With a defect (Defect) the rule or the      *)
(* other invariants must fail: they are not empty.                          *)
EXTENDS ConcRule
CONSTANTS NThreads, MaxOps,   \* operations of a thread: registrations and lookups
          Defect              \* "none", "lost" (append outside of the lock), "inplace" (a lookup sorts the log itself),
                              \* "unsorted", "nested" (handlers are called under the lock)
Threads == 1..NThreads
Pri == <<2, 0, 1>>            \* of the registrations, by the number of the thread
VARIABLES log,      \* registrations: sequence of [x, pri]
          writer, readers, waiting,
          pc, left, mine, copy, lid, fresh,
          evs
vars == <<log, writer, readers, waiting, pc, left, mine, copy, lid, fresh, evs>>
None == 0

Init == /\ log = <<>> /\ writer = None /\ readers = [t \in Threads |-> 0] /\ waiting = {}
        /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> MaxOps] /\ mine = [t \in Threads |-> 0]
        /\ copy = [t \in Threads |-> <<>>] /\ lid = [t \in Threads |-> 0] /\ fresh = 1
        /\ evs = <<>>
(* The rule needs the result of a lookup at its begin: the events are kept  *)
(* and given to the rule when the history is complete (see Accepted).       *)
Emit(e) == evs' = Append(evs, e)

CanWrite(t) == writer = None /\ \A u \in Threads : readers[u] = 0
CanRead(t) == writer = None /\ waiting = {}

(* a registration *)
Call(t, from) == /\ pc[t] = from /\ left[t] > 0
                 /\ left' = [left EXCEPT ![t] = @ - 1] /\ mine' = [mine EXCEPT ![t] = fresh] /\ fresh' = fresh + 1
                 /\ waiting' = IF Defect = "lost" THEN waiting ELSE waiting \cup {t}
                 /\ copy' = IF Defect = "lost" /\ from = "idle" THEN [copy EXCEPT ![t] = log] ELSE copy
                 /\ pc' = [pc EXCEPT ![t] = IF from = "idle" THEN "want" ELSE "hwant"]
                 /\ Emit([e |-> "call", x |-> fresh, kind |-> "h"])
                 /\ UNCHANGED <<log, writer, readers, lid>>
Lock(t, h) == /\ pc[t] = h \o "want" /\ (Defect # "lost" => CanWrite(t))
              /\ writer' = IF Defect = "lost" THEN writer ELSE t
              /\ waiting' = waiting \ {t} /\ pc' = [pc EXCEPT ![t] = h \o "locked"]
              /\ UNCHANGED <<log, readers, left, mine, copy, lid, fresh, evs>>
Entry(t) == [x |-> mine[t], pri |-> Pri[1 + ((mine[t] - 1) % 3)]]
Insert(t, h) == /\ pc[t] = h \o "locked"
                /\ log' = Append(IF Defect = "lost" /\ h = "" THEN copy[t] ELSE log, Entry(t))
                /\ writer' = IF writer = t THEN None ELSE writer
                /\ pc' = [pc EXCEPT ![t] = h \o "wrote"]
                /\ UNCHANGED <<readers, waiting, left, mine, copy, lid, fresh, evs>>
Return(t, h) == /\ pc[t] = h \o "wrote" /\ pc' = [pc EXCEPT ![t] = IF h = "" THEN "idle" ELSE "calling"]
                /\ Emit([e |-> "ret", x |-> mine[t], kind |-> "h"])
                /\ UNCHANGED <<log, writer, readers, waiting, left, mine, copy, lid, fresh>>
(* a lookup *)
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ lid' = [lid EXCEPT ![t] = fresh] /\ fresh' = fresh + 1
            /\ pc' = [pc EXCEPT ![t] = "rwant"] /\ Emit([e |-> "begin", x |-> fresh, kind |-> "h"])
            /\ UNCHANGED <<log, writer, readers, waiting, mine, copy>>
RLock(t) == /\ pc[t] = "rwant" /\ CanRead(t)
            /\ readers' = [readers EXCEPT ![t] = 1]
            /\ copy' = [copy EXCEPT ![t] = <<>>]
            /\ pc' = [pc EXCEPT ![t] = "reading"] /\ UNCHANGED <<log, writer, waiting, left, mine, lid, fresh, evs>>
(* element by element: other readers may read at the same time *)
Read(t) == /\ pc[t] = "reading" /\ Len(copy[t]) < Len(log)
           /\ copy' = [copy EXCEPT ![t] = Append(@, log[Len(@) + 1])]
           /\ UNCHANGED <<log, writer, readers, waiting, pc, left, mine, lid, fresh, evs>>
Sort(s) == IF Defect = "unsorted" THEN s ELSE SortSeq(s, LAMBDA a, b : a.pri < b.pri \/ (a.pri = b.pri /\ a.x < b.x))
RUnlock(t) == /\ pc[t] = "reading" /\ Len(copy[t]) >= Len(log)
              /\ readers' = IF Defect = "nested" THEN readers ELSE [readers EXCEPT ![t] = 0]
              /\ copy' = [copy EXCEPT ![t] = Sort(@)]
              /\ log' = IF Defect = "inplace" THEN Sort(log) ELSE log
              /\ pc' = [pc EXCEPT ![t] = "calling"] /\ UNCHANGED <<writer, waiting, left, mine, lid, fresh, evs>>
(* the handlers were called; one of them may have registered (Call from here) *)
End(t) == /\ pc[t] = "calling" /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ readers' = [readers EXCEPT ![t] = 0]
          /\ Emit([e |-> "end", x |-> lid[t], kind |-> "h", res |-> [k \in 1..Len(copy[t]) |-> copy[t][k].x], pris |-> [k \in 1..Len(copy[t]) |-> copy[t][k].pri]])
          /\ UNCHANGED <<log, writer, waiting, left, mine, copy, lid, fresh>>
Over == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Finished == Over /\ UNCHANGED vars
Next == \/ \E t \in Threads : Call(t, "idle") \/ Call(t, "calling") \/ Begin(t) \/ RLock(t) \/ Read(t) \/ RUnlock(t) \/ End(t)
                              \/ \E h \in {"", "h"} : Lock(t, h) \/ Insert(t, h) \/ Return(t, h)
        \/ Finished
Spec == Init /\ [][Next]_vars

Exclusive == writer # None => \A t \in Threads : readers[t] = 0
ResOf(x) == LET k == CHOOSE k \in 1..Len(evs) : evs[k].e = "end" /\ evs[k].x = x IN evs[k].res
Known(e) == CASE e.e = "begin" -> [e |-> "begin", x |-> e.x, kind |-> "h", q |-> 0, res |-> ResOf(e.x)]
              [] e.e = "end" -> [e |-> "end", x |-> e.x, kind |-> "h", q |-> 0, res |-> e.res]
              [] OTHER -> e
RECURSIVE Accepts(_, _)
Accepts(s, k) == IF s.poss = {} THEN FALSE ELSE IF k > Len(evs) THEN TRUE ELSE Accepts(After(s, Known(evs[k])), k + 1)
Accepted == Over => Accepts(Start, 1)
InOrder == \A k \in 1..Len(evs) : evs[k].e = "end" => \A j \in 1..(Len(evs[k].pris) - 1) : evs[k].pris[j] <= evs[k].pris[j + 1]
============================================================================
