------------------------------- MODULE UrlTrace -----------------------------
(* The destinations of links and images, against UrlModel (C07).            *)
EXTENDS UrlModel, SequencesExt, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, ph
vars == <<i, ph>>
R == Recs[i]

(* The model itself: the examples of RFC 3986, 5.4. *)
Alphabet == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf(c) == LET k == CHOOSE k \in 1..Len(Alphabet) : SubSeq(Alphabet, k, k) = c IN IF k = 1 THEN 32 ELSE IF k = 2 THEN 33 ELSE IF k <= 59 THEN k + 32 ELSE k + 33
B(s) == [k \in 1..Len(s) |-> CodeOf(SubSeq(s, k, k))]
Rfc == << <<"g:h","g:h">>, <<"g","http://a/b/c/g">>, <<"./g","http://a/b/c/g">>, <<"g/","http://a/b/c/g/">>, <<"/g","http://a/g">>, <<"//g","http://g">>, <<"?y","http://a/b/c/d;p?y">>, <<"g?y","http://a/b/c/g?y">>,
  <<"#s","http://a/b/c/d;p?q#s">>, <<"g#s","http://a/b/c/g#s">>, <<"g?y#s","http://a/b/c/g?y#s">>, <<";x","http://a/b/c/;x">>, <<"g;x","http://a/b/c/g;x">>, <<"g;x?y#s","http://a/b/c/g;x?y#s">>, <<"","http://a/b/c/d;p?q">>,
  <<".","http://a/b/c/">>, <<"./","http://a/b/c/">>, <<"..","http://a/b/">>, <<"../","http://a/b/">>, <<"../g","http://a/b/g">>, <<"../..","http://a/">>, <<"../../","http://a/">>, <<"../../g","http://a/g">>,
  <<"../../../g","http://a/g">>, <<"../../../../g","http://a/g">>, <<"/./g","http://a/g">>, <<"/../g","http://a/g">>, <<"g.","http://a/b/c/g.">>, <<".g","http://a/b/c/.g">>, <<"g..","http://a/b/c/g..">>, <<"..g","http://a/b/c/..g">>,
  <<"./../g","http://a/b/g">>, <<"./g/.","http://a/b/c/g/">>, <<"g/./h","http://a/b/c/g/h">>, <<"g/../h","http://a/b/c/h">>, <<"g;x=1/./y","http://a/b/c/g;x=1/y">>, <<"g;x=1/../y","http://a/b/c/y">>,
  <<"g?y/./x","http://a/b/c/g?y/./x">>, <<"g?y/../x","http://a/b/c/g?y/../x">>, <<"g#s/./x","http://a/b/c/g#s/./x">>, <<"g#s/../x","http://a/b/c/g#s/../x">>, <<"http:g","http:g">> >>
RfcBase == Parse(B("http://a/b/c/d;p?q"))
ASSUME \A k \in 1..Len(Rfc) : Compose(Resolve(Parse(B(Rfc[k][1])), RfcBase)) = B(Rfc[k][2])
ASSUME \A k \in 1..Len(Rfc) : Means(B(Rfc[k][1]), B("http://a/b/c/d;p?q"), B(Rfc[k][2]))
ASSUME ~Means(B("../g"), B("http://a/b/c/d"), B("http://a/g")) /\ ~Means(B("?a=1&b=2"), <<>>, B("?b=2&a=1")) /\ ~Means(B("/a%2Fb"), <<>>, B("/a/b")) /\ Means(B("/a b"), B("t.com"), B("http://t.com/a%20b"))

Lead == << B("[x]("), B("!") \o B("[x](") >>
Form2(k) == Starts(R.outs[k], Lead[k]) /\ R.outs[k][Len(R.outs[k])] = 41
Dest(k) == SubSeq(R.outs[k], Len(Lead[k]) + 1, Len(R.outs[k]) - 1)
Bad(k) == IF k = 2 /\ Trim(R.ref) = <<>> THEN (IF R.outs[k] = <<>> THEN {} ELSE {"shape"})
          ELSE IF ~Form2(k) THEN {"shape"}
          ELSE (IF Tidy(Dest(k)) THEN {} ELSE {"shape"}) \cup (IF Means(R.ref, R.dom, Dest(k)) THEN {} ELSE {"target"})
(* what the model resolves is a fixed point of it, and has the meaning of the reference *)
Sound == LET r == Lines(Trim(R.ref))  u == Parse(r)  b == BaseOf(R.dom)
             t == IF b.ok THEN Resolve(u, b.u) ELSE u
         IN Valid(r, u) /\ r # <<Hash>> => (u.scheme = Def(DataS) \/ Means(R.ref, R.dom, Compose(t))) /\ (b.ok /\ t.scheme.def => Resolve(t, b.u) = t)
Verdict == (IF R.err = "" THEN {} ELSE {"err"}) \cup (IF R.err = "" THEN Bad(1) \cup Bad(2) ELSE {})
Init == i \in 1..Len(Recs) /\ ph = "started"
Finish == /\ ph = "started" /\ ph' = "judged" /\ i' = i
          /\ Assert(Sound, <<"the model contradicts itself", R>>)
          /\ PrintT("V " \o ToString(R.id) \o " " \o ToJson(SetToSeq(Verdict)))
Next == Finish
Spec == Init /\ [][Next]_vars
=============================================================================
