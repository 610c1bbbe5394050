------------------------------- MODULE FuncGen ------------------------------
(* Generates histories of conversions: several documents are converted      *)
(* again and again, by several converters (two of them share their plugins),*)
(* through every entry point, with different options.                       *)
EXTENDS Naturals, Sequences, TLC, Json, HtmlFrags
CONSTANTS MaxOps, MaxFrag,
          Big   \* long documents: each of them is repeated until it has that many KB (0: not at all)

VARIABLES docs, ops, mode, cur
vars == <<docs, ops, mode, cur>>

Entries == << "string", "reader", "reader", "onebyte", "half", "dataerr", "zero", "chunk3", "chunk7", "node", "pkgstring", "pkgreader", "pkgnode", "fail" >>
Doms == << "", "", "https://e.com", "e.com/dir/", "https://other.org/a/b?c=d" >>
Ctxs == << "none", "none", "none", "value", "cancelled" >>

(* Bytes that are no characters, a mark of the byte order, ... at any place *)
(* of the document; the driver writes them out.                             *)
Raw == << "{feff}", "{ff}", "{c3}", "{00}", "{fffd}", "{e2}{80}", "{1b}$B", "{0c}", "<meta charset=latin1>", "<meta charset=utf-16>", "<?xml version='1.0' encoding='x'?>" >>
Pieces == Frags \o Raw \o Raw
(* a document that is empty, or nothing but whitespace *)
Blanks == << "", "", " ", "\n" >>
Void(f) == docs[Len(docs)] = "" /\ f % 17 = 0
Init == docs = <<"">> /\ ops = <<>> /\ mode = "doc" /\ cur = 0
Frag == /\ mode = "doc" /\ cur < MaxFrag
        /\ \E f \in 1..Len(Pieces) : docs' = [docs EXCEPT ![Len(docs)] = @ \o
              (IF Void(f) THEN Blanks[1 + (f % Len(Blanks))] ELSE IF cur = 0 /\ f % 4 = 0 THEN Raw[1] ELSE Pieces[f])]
             /\ cur' = IF Void(f) THEN MaxFrag ELSE cur + 1
        /\ UNCHANGED <<ops, mode>>
NextDoc == /\ mode = "doc" /\ cur = MaxFrag
           /\ IF Len(docs) = 3 THEN docs' = docs /\ mode' = "op" /\ cur' = 0
              ELSE docs' = Append(docs, "") /\ mode' = mode /\ cur' = Len(docs)   \* the documents have different lengths
           /\ UNCHANGED ops
Op == /\ mode = "op" /\ Len(ops) < MaxOps
      /\ \E e \in 1..Len(Entries) : \E c \in {1, 1, 2, 2, 3, 3, 4, 4, 5, 6} : \E d \in 1..3 :
           ops' = Append(ops, [e |-> Entries[e], c |-> c, d |-> d, dom |-> "", ctx |-> "none", k |-> 0])
      /\ mode' = "opt" /\ UNCHANGED <<docs, cur>>
Opt == /\ mode = "opt"
       /\ \E m \in 1..Len(Doms) : \E x \in 1..Len(Ctxs) : ops' = [ops EXCEPT ![Len(ops)].dom = Doms[m], ![Len(ops)].ctx = Ctxs[x], ![Len(ops)].k = m * 7 + x]
       /\ mode' = "op" /\ UNCHANGED <<docs, cur>>
Done == /\ mode = "op" /\ Len(ops) = MaxOps
        /\ PrintT("CASE " \o ToJson([docs |-> docs, ops |-> ops, big |-> Big]))
        /\ mode' = "done" /\ UNCHANGED <<docs, ops, cur>>
Next == Frag \/ NextDoc \/ Op \/ Opt \/ Done
Spec == Init /\ [][Next]_vars
============================================================================
