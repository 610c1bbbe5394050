------------------------------- MODULE ConcGen ------------------------------
(* Generates concurrent histories: the programs of several threads that     *)
(* share one converter, and the order in which they take turns at the gates *)
(* (or none, when they run freely).  A gate is an element of the documents; *)
(* what happens at a gate - a registration, another conversion - is one of  *)
(* its attributes.                                                          *)
EXTENDS Integers, Sequences, TLC, Json, HtmlFrags
CONSTANTS Mode,      \* "sched": with turns; "free": without; "race": without, and without records
          Threads, MaxOps, MaxFrag

VARIABLES docs, progs, sched, mode, cur
vars == <<docs, progs, sched, mode, cur>>

Gates == << "<x-gate></x-gate>", "<x-gate></x-gate>", "<x-gate></x-gate>", "<x-gate act=conv></x-gate>", "<x-gate act=ren></x-gate>", "<x-gate act=text></x-gate>", "<x-gate act=pre></x-gate>",
            "<x-gate act=post></x-gate>", "<x-gate act=type></x-gate>", "<x-gate act=chars></x-gate>", "<x-gate act=for></x-gate>", "<x-gate act=plugin></x-gate>", "<x-gate act=une></x-gate>" >>
Kinds == << "pre", "ren", "ren", "text", "text", "post", "type", "chars", "for", "une", "plugin" >>
Doms == << "", "https://e.com", "https://other.org/a/" >>
Pris == {-100, -7, -1, 0, 1, 5}

Init == docs = <<"">> /\ progs = [t \in 1..Threads |-> <<>>] /\ sched = <<>> /\ mode = "doc" /\ cur = 0
Frag == /\ mode = "doc" /\ cur < MaxFrag
        /\ \E f \in 1..(Len(Frags) + 4 * Len(Gates)) : docs' = [docs EXCEPT ![Len(docs)] = @ \o
               (IF f <= Len(Frags) THEN Frags[f] ELSE Gates[1 + ((f - Len(Frags)) % Len(Gates))])]
        /\ cur' = cur + 1 /\ UNCHANGED <<progs, sched, mode>>
NextDoc == /\ mode = "doc" /\ cur = MaxFrag
           /\ IF Len(docs) = 3 THEN docs' = docs /\ mode' = "op" ELSE docs' = Append(docs, "") /\ mode' = mode
           /\ cur' = 0 /\ UNCHANGED <<progs, sched>>
Short == {t \in 1..Threads : Len(progs[t]) < MaxOps}
Conv == /\ mode = "op" /\ Short # {}
        /\ \E d \in 1..3 : \E m \in 1..Len(Doms) :
             LET t == CHOOSE t \in Short : \A u \in Short : t <= u IN
             progs' = [progs EXCEPT ![t] = Append(@, [k |-> "conv", d |-> d, dom |-> Doms[m], kind |-> "", pri |-> 0])]
        /\ UNCHANGED <<docs, sched, mode, cur>>
Reg == /\ mode = "op" /\ Short # {}
       /\ \E x \in 1..(Len(Kinds) + 3) : \E p \in Pris :
            LET t == CHOOSE t \in Short : \A u \in Short : t <= u
                (* a plugin that fails comes late: all conversions after it fail *)
                kind == IF x <= Len(Kinds) THEN Kinds[x] ELSE IF Len(progs[t]) + 2 >= MaxOps THEN "fail" ELSE "ren"
            IN progs' = [progs EXCEPT ![t] = Append(@, [k |-> "reg", d |-> 0, dom |-> "", kind |-> kind, pri |-> p])]
       /\ UNCHANGED <<docs, sched, mode, cur>>
Ready == /\ mode = "op" /\ Short = {} /\ mode' = "sched" /\ UNCHANGED <<docs, progs, sched, cur>>
Turns == IF Mode = "sched" THEN 30 ELSE 0
(* short turns and long ones *)
Turn == /\ mode = "sched" /\ Len(sched) < Turns
        /\ \E t \in 1..Threads : \E k \in {1, 1, 2, 5} : sched' = sched \o [j \in 1..k |-> t]
        /\ UNCHANGED <<docs, progs, mode, cur>>
Done == /\ mode = "sched" /\ Len(sched) >= Turns
        /\ PrintT("CASE " \o ToJson([docs |-> docs, progs |-> progs, sched |-> sched, log |-> Mode # "race"]))
        /\ mode' = "done" /\ UNCHANGED <<docs, progs, sched, cur>>
Next == Frag \/ NextDoc \/ Conv \/ Reg \/ Ready \/ Turn \/ Done
Spec == Init /\ [][Next]_vars
============================================================================
