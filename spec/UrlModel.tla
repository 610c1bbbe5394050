------------------------------ MODULE UrlModel ------------------------------
(* References and their resolution (RFC 3986), as far as it concerns the    *)
(* destinations of links and images (C07).  A URL is a sequence of bytes.   *)
EXTENDS Integers, Sequences, FiniteSets

Slash == 47  Quest == 63  Hash == 35  Colon == 58  Pct == 37  Dot == 46  At == 64
Amp == 38    Eq == 61     Plus == 43  Space == 32
OpenB == 91  CloseB == 93

Has(s, c) == \E k \in 1..Len(s) : s[k] = c
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, cs, k) == IF k > Len(s) THEN 0 ELSE IF s[k] \in cs THEN k ELSE IndexFrom(s, cs, k + 1)
Index(s, cs) == IndexFrom(s, cs, 1)          \* of the first byte in cs, or 0
RECURSIVE LastFrom(_, _, _)
LastFrom(s, c, k) == IF k = 0 THEN 0 ELSE IF s[k] = c THEN k ELSE LastFrom(s, c, k - 1)
Last(s, c) == LastFrom(s, c, Len(s))
Until(s, k) == IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
After(s, k) == SubSeq(s, k + 1, Len(s))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Split(_, _)
Split(s, c) == LET k == Index(s, {c}) IN IF k = 0 THEN <<s>> ELSE <<Until(s, k)>> \o Split(After(s, k), c)

Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerAll(s) == [k \in 1..Len(s) |-> Lower(s[k])]
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
IsDigit(c) == c \in 48..57
IsHex(c) == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE Upper(c) - 55
HexDig(v) == IF v < 10 THEN 48 + v ELSE 55 + v
Encoded(c) == <<Pct, HexDig(c \div 16), HexDig(c % 16)>>
IsPct(s, k) == s[k] = Pct /\ k + 2 <= Len(s) /\ IsHex(s[k + 1]) /\ IsHex(s[k + 2])
GoodPct(s) == \A k \in 1..Len(s) : s[k] = Pct => IsPct(s, k)

IsWhite(c) == c \in {9, 10, 11, 12, 13, 32}
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ IsWhite(s[1]) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ IsWhite(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

-----------------------------------------------------------------------------
(* Two spellings of a component are the same if they differ only in what is *)
(* percent-encoded, except for the bytes that delimit something.            *)
Delims == {Slash, Quest, Hash, Colon, At, Amp, Eq, Plus, 59, 44, 36, Pct}
RECURSIVE NormFrom(_, _, _)
NormFrom(s, k, d) ==
  IF k > Len(s) THEN <<>>
  ELSE IF IsPct(s, k) THEN LET v == 16 * HexVal(s[k + 1]) + HexVal(s[k + 2])
                           IN (IF v \in d THEN Encoded(v) ELSE <<v>>) \o NormFrom(s, k + 3, d)
  ELSE <<s[k]>> \o NormFrom(s, k + 1, d)
Norm(s) == NormFrom(s, 1, Delims)
(* the brackets of an address are no brackets if they are encoded *)
NormAuth(s) == NormFrom(s, 1, Delims \cup {OpenB, CloseB})
(* the meaning of a fragment: nothing delimits in it *)
RECURSIVE PlainFrom(_, _)
PlainFrom(s, k) ==
  IF k > Len(s) THEN <<>>
  ELSE IF IsPct(s, k) THEN <<16 * HexVal(s[k + 1]) + HexVal(s[k + 2])>> \o PlainFrom(s, k + 3)
  ELSE <<s[k]>> \o PlainFrom(s, k + 1)
Plain(s) == PlainFrom(s, 1)
(* the meaning of a key or of a value of a query (form-urlencoded) *)
RECURSIVE FormFrom(_, _)
FormFrom(s, k) ==
  IF k > Len(s) THEN <<>>
  ELSE IF IsPct(s, k) THEN <<16 * HexVal(s[k + 1]) + HexVal(s[k + 2])>> \o FormFrom(s, k + 3)
  ELSE <<IF s[k] = Plus THEN Space ELSE s[k]>> \o FormFrom(s, k + 1)
Form(s) == FormFrom(s, 1)
(* the parameters in their order: key, whether there is a "=", value *)
Pair(p) == LET k == Index(p, {Eq}) IN [key |-> Form(Until(p, k)), eq |-> k # 0, val |-> IF k = 0 THEN <<>> ELSE Form(After(p, k))]
Params(q) == LET s == Split(q, Amp) IN [k \in 1..Len(s) |-> Pair(s[k])]

-----------------------------------------------------------------------------
(* the five components; each but the path may be undefined *)
Undef == [def |-> FALSE, v |-> <<>>]
Def(s) == [def |-> TRUE, v |-> s]
SchemeEnd(s) == LET k == Index(s, {Colon}) IN
  IF k >= 2 /\ IsAlpha(s[1]) /\ \A j \in 2..(k - 1) : IsAlpha(s[j]) \/ IsDigit(s[j]) \/ s[j] \in {43, 45, 46} THEN k ELSE 0
Parse(raw) ==
  LET h == Index(raw, {Hash})
      s1 == Until(raw, h)
      k == SchemeEnd(s1)
      s2 == IF k = 0 THEN s1 ELSE After(s1, k)
      q == Index(s2, {Quest})
      s3 == Until(s2, q)
      auth == Starts(s3, <<Slash, Slash>>)
      s4 == IF auth THEN After(s3, 2) ELSE s3
      p == Index(s4, {Slash})
  IN [scheme |-> IF k = 0 THEN Undef ELSE Def(LowerAll(Until(s1, k))),
      auth |-> IF auth THEN Def(IF p = 0 THEN s4 ELSE Until(s4, p)) ELSE Undef,
      path |-> IF ~auth THEN s3 ELSE IF p = 0 THEN <<>> ELSE After(s4, p - 1),
      query |-> IF q = 0 THEN Undef ELSE Def(After(s2, q)),
      frag |-> IF h = 0 THEN Undef ELSE Def(After(raw, h))]
Host(u) == LET a == u.auth.v k == Last(a, At) IN After(a, k)
User(u) == LET a == u.auth.v k == Last(a, At) IN IF k = 0 THEN <<>> ELSE SubSeq(a, 1, k)

(* A string that is no reference at all: it cannot be taken apart. *)
HostOk(h) == LET b == h # <<>> /\ h[1] = OpenB
                 e == Index(h, {CloseB})
                 port == IF b THEN After(h, e) ELSE LET c == Index(h, {Colon}) IN IF c = 0 THEN <<>> ELSE After(h, c - 1)
             IN /\ (b => e # 0)
                /\ (port # <<>> => port[1] = Colon /\ \A k \in 2..Len(port) : IsDigit(port[k]))
                /\ \A k \in 1..Len(h) : (h[k] \in {Space, 34, 60, 62, 92, 94, 96, 123, 124, 125} => FALSE) /\ (h[k] = Pct => IsPct(h, k) /\ (HexVal(h[k + 1]) >= 8 \/ SubSeq(h, k + 1, k + 2) = <<50, 53>>))
Valid(raw, u) ==
  /\ \A k \in 1..Len(Until(raw, Index(raw, {Hash}))) : raw[k] >= 32 /\ raw[k] # 127
  /\ (~u.scheme.def /\ ~u.auth.def /\ u.path # <<>> => ~Has(Until(u.path, Index(u.path, {Slash})), Colon))
  /\ (u.auth.def => HostOk(Host(u)) /\ GoodPct(u.auth.v))
  /\ (u.frag.def => GoodPct(u.frag.v))
  /\ ((~u.scheme.def \/ u.auth.def \/ Starts(u.path, <<Slash>>)) => GoodPct(u.path))

(* RFC 3986, 5.2.4 *)
RECURSIVE Dots(_, _)
Dots(in, out) ==
  LET cut(n) == SubSeq(in, n + 1, Len(in))
      up == LET k == Last(out, Slash) IN IF k = 0 THEN <<>> ELSE SubSeq(out, 1, k - 1)
      seg == LET k == IndexFrom(in, {Slash}, 2) IN IF k = 0 THEN in ELSE SubSeq(in, 1, k - 1)
  IN IF in = <<>> THEN out
     ELSE IF Starts(in, <<Dot, Dot, Slash>>) THEN Dots(cut(3), out)
     ELSE IF Starts(in, <<Dot, Slash>>) THEN Dots(cut(2), out)
     ELSE IF Starts(in, <<Slash, Dot, Slash>>) THEN Dots(cut(2), out)
     ELSE IF in = <<Slash, Dot>> THEN Dots(<<Slash>>, out)
     ELSE IF Starts(in, <<Slash, Dot, Dot, Slash>>) THEN Dots(cut(3), up)
     ELSE IF in = <<Slash, Dot, Dot>> THEN Dots(<<Slash>>, up)
     ELSE IF in \in {<<Dot>>, <<Dot, Dot>>} THEN out
     ELSE Dots(cut(Len(seg)), out \o seg)
NoDots(p) == Dots(p, <<>>)
(* 5.2.3 *)
MergePath(b, p) == IF b.auth.def /\ b.path = <<>> THEN <<Slash>> \o p ELSE SubSeq(b.path, 1, Last(b.path, Slash)) \o p
(* 5.2.2, strict *)
Resolve(r, b) ==
  IF r.scheme.def THEN [r EXCEPT !.path = IF r.auth.def \/ Starts(@, <<Slash>>) THEN NoDots(@) ELSE @]
  ELSE IF r.auth.def THEN [r EXCEPT !.scheme = b.scheme, !.path = NoDots(@)]
  ELSE IF r.path = <<>> THEN [b EXCEPT !.query = IF r.query.def THEN r.query ELSE @, !.frag = r.frag, !.path = NoDots(@)]
  ELSE [b EXCEPT !.path = NoDots(IF Starts(r.path, <<Slash>>) THEN r.path ELSE MergePath(b, r.path)), !.query = r.query, !.frag = r.frag]
(* 5.3 *)
Compose(u) == (IF u.scheme.def THEN u.scheme.v \o <<Colon>> ELSE <<>>) \o (IF u.auth.def THEN <<Slash, Slash>> \o u.auth.v ELSE <<>>)
              \o u.path \o (IF u.query.def THEN <<Quest>> \o u.query.v ELSE <<>>) \o (IF u.frag.def THEN <<Hash>> \o u.frag.v ELSE <<>>)

(* the domain of a conversion: a URL, or only its authority and path *)
HttpSS == <<104, 116, 116, 112, Colon, Slash, Slash>>
NoBase == [ok |-> FALSE, u |-> Parse(<<>>)]
BaseOf(d) ==
  LET u == Parse(d)  w == Parse(HttpSS \o d)
  IN IF d = <<>> THEN NoBase
     ELSE IF Valid(d, u) /\ u.auth.def /\ Host(u) # <<>> THEN [ok |-> TRUE, u |-> u]
     ELSE IF Valid(HttpSS \o d, w) /\ Host(w) # <<>> THEN [ok |-> TRUE, u |-> w]
     ELSE NoBase

-----------------------------------------------------------------------------
(* Line feeds and tabs are encoded before anything else. *)
RECURSIVE Lines(_)
Lines(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in {9, 10} THEN Encoded(s[1]) ELSE <<s[1]>>) \o Lines(Tail(s))
RootPath(u) == IF u.auth.def /\ u.path = <<>> THEN <<Slash>> ELSE u.path
(* Empty segments next to ".." may disappear with it. *)
RECURSIVE Squeeze(_)
Squeeze(p) == IF Len(p) < 2 THEN p ELSE IF p[1] = Slash /\ p[2] = Slash THEN Squeeze(Tail(p)) ELSE <<p[1]>> \o Squeeze(Tail(p))
Within(s, t) == \E k \in 0..(Len(s) - Len(t)) : SubSeq(s, k + 1, k + Len(t)) = t
Empties(r, b) == LET p == b.path \o <<Slash>> \o r.path IN Within(p, <<Dot, Dot>>) /\ Within(r.path \o b.path, <<Slash, Slash>>)
SameUrl(a, b, loose) == /\ a.scheme = b.scheme
                 /\ a.auth.def = b.auth.def /\ NormAuth(Host(a)) = NormAuth(Host(b)) /\ Plain(User(a)) = Plain(User(b))
                 /\ IF loose THEN Norm(Squeeze(RootPath(a))) = Norm(Squeeze(RootPath(b))) ELSE Norm(RootPath(a)) = Norm(RootPath(b))
                 /\ a.query.def = b.query.def /\ (a.query.def => Params(a.query.v) = Params(b.query.v))
                 /\ Plain(a.frag.v) = Plain(b.frag.v)
DataS == <<100, 97, 116, 97>>
(* An authority without a host, or with a bracket or two colons in it, means nothing. *)
Strange(u) == u.auth.def /\ LET h == Host(u) IN IF Has(u.auth.v, At) /\ (Has(User(u), OpenB) \/ Has(User(u), CloseB)) THEN TRUE ELSE IF h = <<>> THEN ~u.scheme.def \/ u.path = <<>>
                                                ELSE Has(IF h[1] = OpenB THEN Until(Tail(h), Index(Tail(h), {CloseB})) ELSE h, OpenB) \/ (h[1] # OpenB /\ (Has(h, CloseB) \/ Len(Split(h, Colon)) > 2))
(* Does dest mean what the reference means, for a conversion with a domain? *)
Means(ref, domain, dest) ==
  LET r == Lines(Trim(ref))
      u == Parse(r)
      b == BaseOf(domain)
  IN IF r = <<Hash>> THEN dest = r
     ELSE IF Strange(u) THEN TRUE
     ELSE IF ~Valid(r, u) \/ u.scheme = Def(DataS) THEN Norm(dest) = Norm(r)
     ELSE IF b.ok THEN SameUrl(Resolve(u, b.u), Parse(dest), Empties(u, b.u))
     ELSE SameUrl(u, Parse(dest), FALSE)
(* nothing in a destination may end it, or end the line *)
Tidy(dest) == \A k \in 1..Len(dest) : dest[k] > 32 /\ dest[k] \notin {40, 41, 60, 62, 92, 127}
=============================================================================
