-------------------------------- MODULE WsGen -------------------------------
(* Builds trees token by token.  Mode "all": every tree up to MaxTok tokens *)
(* (checked exhaustively); "random": long trees, for simulation; "chars":   *)
(* every text of up to MaxTok characters alone, and every pair of texts of  *)
(* up to two characters with the border of an element between them.         *)
EXTENDS WsModel, Json

CONSTANTS Mode, MaxTok

VARIABLES toks, open, kinds, pc
vars == <<toks, open, kinds, pc>>

T(k, e, s) == [k |-> k, e |-> e, s |-> s]
Texts == IF Mode = "all" THEN {<<"a">>, <<" ">>, <<"a", " ">>, <<" ", "a">>, <<" ", " ", "a", "NL", " ">>}
         ELSE {<<"a">>, <<"b", "a">>, <<" ">>, <<"NL", " ">>, <<"TAB">>, <<"a", " ">>, <<" ", "b">>, <<" ", "a", " ">>, <<"a", " ", " ", "b">>, <<"CR", "NL", "a">>,
               <<"NBSP">>, <<" ", "NBSP", " ">>, <<"a", "NBSP">>, <<>>, <<"a", "NL", "TAB", "b", " ", "c">>, <<" ", "a", " ", "b", "NL">>, <<"é", " ">>, <<" ", "中">>}
Opens == IF Mode = "all" THEN {"div", "b", "code"} ELSE {"div", "p", "li", "b", "b", "i", "span", "span", "code", "pre", "kbd", "samp", "x-y"}
Voids == IF Mode = "all" THEN {"br", "img"} ELSE {"br", "img", "hr", "input", "wbr", "b", "div"}
AllKinds == IF Mode # "random" THEN {"default"} ELSE {"default", "default", "swap"}
K == IF kinds = "swap" THEN SwapKinds ELSE DefaultKinds

InCode == \E j \in 1..Len(open) : open[j] \in {"code", "pre"}
LastText == toks # <<>> /\ toks[Len(toks)].k = "t"

Seqs(n) == UNION {[1..k -> {"a", " ", "TAB", "NL", "CR"}] : k \in 1..n}
Single == {<<T("t", "", s)>> : s \in Seqs(MaxTok)}
Pairs == {<<T("t", "", s[1])>> \o m \o <<T("t", "", s[2])>> \o (IF m[1].k = "o" THEN <<T("c", "", <<>>)>> ELSE <<>>) :
             s \in Seqs(2) \X Seqs(2), m \in {<<T("o", "b", <<>>)>>, <<T("o", "div", <<>>)>>, <<T("v", "br", <<>>)>>, <<T("v", "img", <<>>)>>}}
OneText == /\ Mode = "chars" /\ pc = "run"
           /\ \E x \in Single \cup Pairs : toks' = x /\ PrintT("CASE " \o ToJson([toks |-> x, kinds |-> kinds]))
           /\ pc' = "done" /\ UNCHANGED <<open, kinds>>

Init == toks = <<>> /\ open = <<>> /\ pc = "run" /\ kinds \in AllKinds
Room == Mode # "chars" /\ Len(toks) + Len(open) < MaxTok /\ pc = "run"
Add(x) == toks' = Append(toks, x)
Text == /\ Room /\ (Mode = "all" => ~LastText)
        /\ \E s \in Texts : Add(T("t", "", s))
        /\ UNCHANGED <<open, kinds, pc>>
Open == /\ Room /\ Len(toks) + Len(open) + 1 < MaxTok /\ Len(open) < 6 /\ (Mode = "all" => ~InCode)
        /\ \E e \in Opens : Add(T("o", e, <<>>)) /\ open' = Append(open, e)
        /\ UNCHANGED <<kinds, pc>>
Shut == /\ open # <<>> /\ pc = "run"
        /\ (Mode = "all" => toks[Len(toks)].k # "o")
        /\ Add(T("c", "", <<>>)) /\ open' = SubSeq(open, 1, Len(open) - 1)
        /\ UNCHANGED <<kinds, pc>>
Void == /\ Room /\ (Mode = "all" => ~InCode)
        /\ \E e \in Voids : Add(T("v", e, <<>>))
        /\ UNCHANGED <<open, kinds, pc>>
Other == /\ Room /\ Mode = "random"
         /\ \E k \in {"m", "m", "d"} : Add(T(k, "", <<>>))
         /\ UNCHANGED <<open, kinds, pc>>
Done == /\ open = <<>> /\ toks # <<>> /\ pc = "run" /\ (Mode = "random" => Len(toks) >= MaxTok - 1)
        /\ PrintT("CASE " \o ToJson([toks |-> toks, kinds |-> kinds]))
        /\ pc' = "done" /\ UNCHANGED <<toks, open, kinds>>
Next == OneText \/ Text \/ Open \/ Shut \/ Void \/ Other \/ Done
Spec == Init /\ [][Next]_vars

(* the model is idempotent and only touches spaces *)
Laws == pc = "done" => Idempotent(toks, K) /\ InkKept(toks, K)
============================================================================
