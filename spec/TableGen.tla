------------------------------ MODULE TableGen -----------------------------
(* Generates tables, cell by cell.  Mode "random": run with -simulate;      *)
(* mode "grid": all tables with small spans, explored exhaustively.         *)
EXTENDS TableModel, Json

CONSTANTS Mode, MaxRows, MaxCells

VARIABLES t, pc, num, rnd
vars == <<t, pc, num, rnd>>

Tx(s) == T("t", "", Chars(s), <<>>, <<>>)
O(e) == T("o", e, <<>>, <<>>, <<>>)
C == T("c", "", <<>>, <<>>, <<>>)
V(e) == T("v", e, <<>>, <<>>, <<>>)
N(k) == ToString(k)

(* contents; k makes the words different *)
Content(j, k) ==
  LET w == Tx("w" \o N(k)) IN
  CASE j = 1 -> <<w>>
    [] j = 2 -> <<>>
    [] j = 3 -> <<Tx(" ")>>
    [] j = 4 -> <<Tx("a|b" \o N(k))>>
    [] j = 5 -> <<O("code"), Tx("p|q" \o N(k)), C>>
    [] j = 6 -> <<Tx("\\|" \o N(k))>>
    [] j = 7 -> <<Tx("*x* _y_ " \o N(k))>>
    [] j = 8 -> <<O("strong"), Tx("b|" \o N(k)), C>>
    [] j = 9 -> <<T("o", "a", <<>>, Chars("/u|v"), Chars("t|u")), w, C>>
    [] j = 10 -> <<T("v", "img", Chars("m|n"), Chars("/i.png"), Chars("a|")), Tx(" "), w>>
    [] j = 11 -> <<Tx("---")>>
    [] j = 12 -> <<w, V("br"), Tx("x" \o N(k))>>
    [] j = 13 -> <<O("p"), w, C, O("p"), Tx("y" \o N(k)), C>>
    [] j = 14 -> <<O("div"), w, C>>
    [] j = 15 -> <<O("ul"), O("li"), w, C, C>>
    [] j = 16 -> <<V("hr"), w>>
    [] j = 17 -> <<O("blockquote"), w, C>>
    [] j = 18 -> <<T("p", "pre", Chars("c1") \o <<"NL">> \o Chars("c" \o N(k)), <<>>, <<>>)>>
    [] j = 19 -> <<O("h3"), w, C>>
    [] j = 20 -> <<O("p"), Tx(" long text with é " \o N(k) \o " "), C>>
    [] j = 21 -> <<Tx("1. " \o N(k))>>
    [] j = 22 -> <<Tx("|")>>
    [] j = 23 -> <<Tx("# " \o N(k))>>
    [] j = 24 -> <<O("em"), Tx("i" \o N(k)), C, Tx(" "), O("del"), Tx("d"), C>>
    [] j = 25 -> <<T("o", "a", <<>>, Chars("/l"), <<>>), O("code"), Tx("z|"), C, C>>
    [] OTHER -> <<w>>
(* most contents fit into a cell *)
Picks == << 1,1,1,1,1,1,1,1,2,2,3,4,5,6,7,8,9,10,11,14,20,21,22,23,24,25,4,5 >>
Rare == << 1,1,1,12,13,15,16,17,18,19 >>

DefOpt == [span |-> "empty", nl |-> "skip", skip |-> FALSE, promote |-> FALSE, pres |-> FALSE, pad |-> "aligned"]
RandOpts == {[span |-> a, nl |-> b, skip |-> c, promote |-> d, pres |-> e, pad |-> f] :
             a \in {"empty", "mirror"}, b \in {"skip", "preserve"}, c \in BOOLEAN, d \in BOOLEAN, e \in BOOLEAN, f \in {"aligned", "minimal", "none"}}

Init ==
  /\ pc = "row" /\ num = 1 /\ rnd = 0
  /\ \/ Mode = "grid" /\ \E s \in {"empty", "mirror"} : t = [ctx |-> "top", role |-> "", cap |-> <<>>, rows |-> <<>>, opt |-> [DefOpt EXCEPT !.span = s]]
     \/ Mode = "random" /\ \E o \in RandOpts : \E c \in {<<"top", 6>>, <<"quote", 2>>, <<"li", 2>>, <<"div", 1>>} \cup {<<b, 1>> : b \in BadParent} \cup {<<"section", 1>>, <<"center", 1>>} :
            \E w \in 1..c[2] : \E r \in {"", "", "x"} :
              t = [ctx |-> c[1], role |-> "", cap |-> <<>>, rows |-> <<>>, opt |-> o]

(* the role and the caption *)
Extra == /\ Mode = "random" /\ rnd = 0 /\ pc = "row"
         /\ \E k \in 1..10 : /\ t' = [t EXCEPT !.role = IF k = 1 THEN "presentation" ELSE "",
                                               !.cap = IF k \in {2, 3} THEN <<Tx("cap")>> ELSE <<>>]
                             /\ rnd' = k
         /\ UNCHANGED <<pc, num>>
Ready == Mode = "grid" \/ rnd > 0

NewRow == /\ Ready /\ pc = "row" /\ Len(t.rows) < MaxRows
          /\ \E s \in (IF Mode = "grid" THEN {"tr"} ELSE IF t.rows = <<>> THEN {"tr", "thead", "tbody"}
                       ELSE IF t.rows[Len(t.rows)].sec \in {"tr"} THEN {"tr"} ELSE {"tbody", "tfoot", t.rows[Len(t.rows)].sec}) :
               t' = [t EXCEPT !.rows = Append(@, [sec |-> s, cells |-> <<>>])]
          /\ pc' = "cell" /\ UNCHANGED <<num, rnd>>

Spans == IF Mode = "grid" THEN {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>} ELSE {<<1, 1>>}
AddCell(c) == t' = [t EXCEPT !.rows[Len(t.rows)].cells = Append(@, c)]
NewCell == /\ pc = "cell" /\ Len(t.rows[Len(t.rows)].cells) < MaxCells
           /\ IF Mode = "grid"
              THEN /\ \E s \in Spans : AddCell([th |-> FALSE, al |-> "", cs |-> s[1], rs |-> s[2], ct |-> Content(1, num)])
                   /\ pc' = "cell"
              ELSE /\ \E p \in 1..(Len(Picks) + (IF rnd \in {4, 5} THEN Len(Rare) ELSE 0)) :
                        LET j == IF p > Len(Picks) THEN Rare[p - Len(Picks)] ELSE Picks[p] IN
                        AddCell([th |-> t.rows[Len(t.rows)].sec = "thead" \/ (rnd = 6 /\ p % 5 = 0), al |-> "", cs |-> 1, rs |-> 1, ct |-> Content(j, num)])
                   /\ pc' = "span"
           /\ num' = num + 1 /\ UNCHANGED rnd
SetSpan == /\ pc = "span"
           /\ \E a \in {"", "", "left", "center", "right", "x"} : \E cs \in {1, 2, 3, 0} : \E rs \in {1, 2, 3} : \E w \in 1..(IF cs = 1 /\ rs = 1 THEN 16 ELSE 1) :
                LET r == Len(t.rows)  c == Len(t.rows[r].cells) IN
                t' = [t EXCEPT !.rows[r].cells[c].al = a, !.rows[r].cells[c].cs = cs, !.rows[r].cells[c].rs = rs]
           /\ pc' = "cell" /\ UNCHANGED <<num, rnd>>
EndRow == /\ pc = "cell" /\ Len(t.rows[Len(t.rows)].cells) >= (IF Mode = "random" /\ rnd \in {4, 7, 9} THEN MaxCells ELSE 1)
          /\ pc' = "row" /\ UNCHANGED <<t, num, rnd>>
Done == /\ Ready /\ pc = "row" /\ t.rows # <<>> /\ (Mode = "random" => Len(t.rows) = MaxRows)
        /\ PrintT("CASE " \o ToJson([t |-> t]))
        /\ pc' = "done" /\ UNCHANGED <<t, num, rnd>>
Next == Extra \/ NewRow \/ NewCell \/ SetSpan \/ EndRow \/ Done
Spec == Init /\ [][Next]_vars

(* the model itself: no two cells share a slot, every cell has its first slot *)
GridOK == LET rows == Ordered(t)  g == Grid(rows) IN
  \A r \in 1..Len(rows) : \A k \in 1..Len(rows[r]) :
     Cardinality({s \in DOMAIN g : g[s] = <<r, k, TRUE>>}) = 1
============================================================================
