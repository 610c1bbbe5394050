------------------------------ MODULE MdChars ------------------------------
(* Characters, and the character classes of the CommonMark specification.  *)
(*                                                                          *)
(* A text is a sequence of one-character strings.  Characters that are      *)
(* awkward inside of TLA+ or JSON strings are replaced by names by the      *)
(* harness: "NL", "TAB", "CR", "FF", "NBSP", "BEL", "F002", "NUL".          *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

Digits == {"0","1","2","3","4","5","6","7","8","9"}
Lower  == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
           "n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper  == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
           "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Letters  == Lower \cup Upper
AlphaNum == Letters \cup Digits
HexDigits == Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}

(* ASCII punctuation: can be escaped by a backslash *)
AsciiPunct == {"!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",
               ":",";","<","=",">","?","@","[","\\","]","^","_","`","{","|","}","~"}

Blank == {" ", "TAB"}
(* Unicode whitespace: decides the flanking of a delimiter run *)
UniWhite == {" ", "TAB", "NL", "CR", "FF", "NBSP"}
(* Unicode punctuation; the generators use no other one than these *)
UniPunct == AsciiPunct \cup {"UPUNCT"}

LowerOf(c) == LET u == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
                  l == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
              IN IF c \in Upper THEN l[CHOOSE i \in 1..26 : u[i] = c] ELSE c

DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9 [] OTHER -> 0
NumVal(cs) == FoldLeft(LAMBDA a, c : a * 10 + DigitVal(c), 0, cs)

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE "EOF"

From(s, i) == IF i > Len(s) THEN <<>> ELSE SubSeq(s, i, Len(s))

(* the first index >= i at which the character is not in C (Len+1 if none) *)
RECURSIVE Skip(_, _, _)
Skip(s, i, C) == IF i <= Len(s) /\ s[i] \in C THEN Skip(s, i + 1, C) ELSE i

(* the first index >= i at which the character is in C (Len+1 if none) *)
RECURSIVE Find(_, _, _)
Find(s, i, C) == IF i <= Len(s) /\ s[i] \notin C THEN Find(s, i + 1, C) ELSE IF i <= Len(s) THEN i ELSE Len(s) + 1

RECURSIVE LastNot(_, _, _)
LastNot(s, i, C) == IF i >= 1 /\ s[i] \in C THEN LastNot(s, i - 1, C) ELSE i

Trim(s, C) == LET a == Skip(s, 1, C) IN IF a > Len(s) THEN <<>> ELSE SubSeq(s, a, LastNot(s, Len(s), C))
TrimR(s, C) == SubSeq(s, 1, LastNot(s, Len(s), C))
TrimL(s, C) == From(s, Skip(s, 1, C))

IsBlankFrom(s, i) == Skip(s, i, Blank) > Len(s)

(* does the text p (a sequence) occur in s at position i *)
PrefixAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]

RECURSIVE FindSub(_, _, _)
FindSub(s, i, p) == IF i + Len(p) - 1 > Len(s) THEN 0 ELSE IF PrefixAt(s, i, p) THEN i ELSE FindSub(s, i + 1, p)

RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN <<>> ELSE <<c>> \o Rep(c, n - 1)

Concat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

Join(ss, sep) == FoldLeft(LAMBDA a, s : IF a.n = 0 THEN [n |-> 1, v |-> s] ELSE [n |-> 1, v |-> a.v \o sep \o s],
                          [n |-> 0, v |-> <<>>], ss).v

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
============================================================================
