-------------------------------- MODULE Form --------------------------------
(* The normal form of the output (C10), line by line.                       *)
EXTENDS MdBlocks
Hollow(l) == \A k \in 1..Len(l) : l[k] \in {" ", ">"}    \* nothing but prefixes of containers
Trailing(l) == Len(l) - LastNot(l, Len(l), Blank)
InCode(m) == m.lf.k = "f"
Placeholder == {"BEL", "F002", "NUL", "REPL"}

(* l: a line, prev: the one before it; before, after: the block machine;    *)
(* slack: 1 if there may be a space in front of an element that has no      *)
(* output, such as an image without a source (the golden files of the       *)
(* project have such spaces)                                                *)
LineForm(l, prev, before, after, last, slack) ==
  (IF \E k \in 1..Len(l) : l[k] \in Placeholder THEN {"placeholder"} ELSE {})
  \cup (IF InCode(before) THEN {}
        ELSE (IF Hollow(l) \/ Trailing(l) \in {0, 2} \/ slack > 0 THEN {} ELSE {"trailing"})
             \cup (IF Hollow(l) /\ Hollow(prev) THEN {"blank"} ELSE {})
             \cup (IF Hollow(l) /\ ~Hollow(prev) /\ Trailing(prev) > slack THEN {"hardbreak"} ELSE {})
             \cup (IF last /\ Trailing(l) # 0 THEN {"end"} ELSE {}))
Edges(out) == IF out = <<<<>>>> THEN {}
              ELSE IF out[1] = <<>> \/ out[Len(out)] = <<>> \/ out[1][1] \in UniWhite \/ out[Len(out)][Len(out[Len(out)])] \in UniWhite THEN {"edge"} ELSE {}
============================================================================
