-------------------------------- MODULE UrlGen ------------------------------
(* Generates references and domains: all combinations of components (Mode   *)
(* "parts"), all short queries, paths and fragments (Mode "text"), and      *)
(* random ones (Mode "soup").                                               *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Mode, MaxLen
VARIABLES dom, ref, len, mode
vars == <<dom, ref, len, mode>>

Doms == << "", "test.com", "https://test.com", "test.com/sub", "http://test.com/sub/", "http://test.com/SUB/", "http://a/b/c/d;p?q", "https://u:p@Test.com:8080/a/b/", "localhost:3000/x", "HTTPS://e.com/a//b/../c?x=1&y", "//cdn.com/dir/page.html",
           "test.com/sub/", "http://[::1]:80/d/", "http://müller.de/ü/", "/only/path", "http://", "bad host.com", "https://e.com/a b/c%2Fd/e", "ftp://h", "#", "?", "mailto:me@e.com" >>
Segs == << "a", "..", ".", "", "b c", "c%2Fd", "ü" >>
Pre == << "", "http:", "HTTPS://h.org", "//h.org:81", "mailto:", "x-y.z+1:" >>
Queries == << "", "?", "?b=2&a=1&b=&c", "?q=x+y%26z" >>
Frags == << "", "#", "#top", "#a b/?#" >>
Text == << "a", "b", "=", "&", "+", "%20", "%", "%26", "%3D", "%2B", "%zz", "ä", " ", "?", "/", "#", ":", ";", "[", "]", "(", ")", "<", ">", "\"", "'", "\\", "\n", "\t", "%2f", "%25", "|", "{", "^", "`", "~", "!", "*", "$", ",", "@", ".", "-", "日", "%C3%A4", "%ff", "_" >>
Before == << "", "/", "?", "#", "http://h.org/", "http://h.org?", "mailto:m@e.com?", "data:text/plain,", "//h.org/x?y#", "javascript:" >>
Pieces == Text \o << "..", "../", "./", "/..", "//", "http:", "https://", "mailto:", "data:", "data:image/png;base64,AA==", "DATA:,x", "javascript:f(1)", "tel:+1", "h.org", ":80", "user@", "u:p@", "[::1]", "[fe80::1%25en0]", "page.html", "a=1", "&amp", "?k=v", "#frag", "index.php?", "&&", "==", "\r", "é", "&a=2", "&a=1",
             "urn:isbn:1", "file:///etc/x", "C:\\dir", "x:y" >>

Emit(r) == PrintT("CASE " \o ToJson([ref |-> r, dom |-> dom, prof |-> Mode]))
Init == /\ \E k \in 1..Len(Doms) : dom = Doms[k] /\ (IF Mode = "text" THEN k \in {1, 2, 7} ELSE TRUE)
        /\ ref = "" /\ len = 0 /\ mode = "go"
(* paths of up to MaxLen segments, with everything before and behind them *)
Parts == /\ Mode = "parts" /\ mode = "go"
         /\ \A p \in 1..Len(Pre) : \A q \in 1..Len(Queries) : \A f \in 1..Len(Frags) :
              IF (q = f \/ q = 1 \/ f = 1) /\ (len < 2 \/ q + f + p < 6) THEN Emit(Pre[p] \o ref \o Queries[q] \o Frags[f]) ELSE TRUE
         /\ IF len < MaxLen
            THEN \E s \in 1..Len(Segs) : \E l \in {"", "/"} : (IF len = 0 THEN TRUE ELSE l = "/") /\ ref' = ref \o l \o Segs[s] /\ len' = len + 1 /\ mode' = "go"
            ELSE mode' = "done" /\ UNCHANGED <<ref, len>>
         /\ UNCHANGED dom
Texts == /\ Mode = "text" /\ mode = "go"
         /\ \A b \in 1..Len(Before) : Emit(Before[b] \o ref)
         /\ IF len < MaxLen THEN \E t \in 1..Len(Text) : ref' = ref \o Text[t] /\ len' = len + 1 /\ mode' = "go" ELSE mode' = "done" /\ UNCHANGED <<ref, len>>
         /\ UNCHANGED dom
Grow == /\ Mode = "soup" /\ mode = "go" /\ len < MaxLen
        /\ \E k \in 1..Len(Pieces) : ref' = ref \o Pieces[k]
        /\ len' = len + 1 /\ UNCHANGED <<dom, mode>>
Stop == /\ Mode = "soup" /\ mode = "go" /\ len > 0
        /\ \A k \in 1..Len(Before) : Emit(Before[k] \o ref)
        /\ IF len < MaxLen THEN mode' = "go" ELSE mode' = "done"
        /\ UNCHANGED <<dom, ref, len>> /\ mode = "go" /\ len = MaxLen
Next == Parts \/ Texts \/ Grow \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
