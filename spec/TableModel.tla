----------------------------- MODULE TableModel ----------------------------
(* The HTML table model: from rows of cells with spans to a grid, and from  *)
(* the grid and the options to the table that a Markdown reader must see.   *)
(*                                                                          *)
(* table: [ctx, role, cap, rows, opt]                                       *)
(*   rows: sequence of [sec, cells], cells: [th, al, cs, rs, ct]            *)
(*   ct: the content as tokens (see DocModel)                               *)
(*   opt: [span, nl, skip, promote, pres, pad]                              *)
EXTENDS DocModel

TCfg == [Default EXCEPT !.table = TRUE]

CellEvents(c) == DocMeaning(c.ct, TCfg)

(* content that a cell of a Markdown table cannot have *)
Unfit(c) == \E k \in 1..Len(CellEvents(c)) : CellEvents(c)[k].e \in {"head", "hr", "open", "close"}
MultiLine(c) == LET ev == CellEvents(c) IN
                \/ Len(ev) > 1
                \/ \E k \in 1..Len(ev) : ev[k].e = "code" \/ (ev[k].e = "para" /\ \E a \in 1..Len(ev[k].at) : ev[k].at[a].c = "BR")

---------------------------------------------------------------------------
(* which row is the header, and the order of the rows *)
HeaderRow(t) ==
  LET H == {r \in 1..Len(t.rows) : t.rows[r].sec = "thead"}
      K == {r \in 1..Len(t.rows) : \E c \in 1..Len(t.rows[r].cells) : t.rows[r].cells[c].th}
      First(S) == CHOOSE r \in S : \A q \in S : r <= q
  IN IF H # {} THEN First(H) ELSE IF K # {} THEN First(K) ELSE 0
Ordered(t) ==
  LET h == HeaderRow(t)
      others == SelectSeq([r \in 1..Len(t.rows) |-> r], LAMBDA r : r # h)
  IN <<IF h = 0 THEN <<>> ELSE t.rows[h].cells>> \o [k \in 1..Len(others) |-> t.rows[others[k]].cells]

---------------------------------------------------------------------------
(* the grid: a function from <<row, column>> to the cell (its row and index) *)
Span(n) == IF n < 1 THEN 1 ELSE n
RECURSIVE FreeCol(_, _, _)
FreeCol(g, r, c) == IF <<r, c>> \in DOMAIN g THEN FreeCol(g, r, c + 1) ELSE c

Place(g, r, c, k, cell) ==    \* puts cell number k of row r at column c; older cells keep their slots
  LET S == {<<y, x>> : y \in r..(r + Span(cell.rs) - 1), x \in c..(c + Span(cell.cs) - 1)} \ DOMAIN g
  IN [s \in DOMAIN g \cup S |-> IF s \in DOMAIN g THEN g[s] ELSE <<r, k, s = <<r, c>>>>]

Grid(rows) ==
  FoldLeft(LAMBDA g, r :
     FoldLeft(LAMBDA a, k : LET c == FreeCol(a.g, r, a.c) IN
                            [g |-> Place(a.g, r, c, k, rows[r][k]), c |-> c + Span(rows[r][k].cs)],
              [g |-> g, c |-> 1], [k \in 1..Len(rows[r]) |-> k]).g,
     [s \in {} |-> <<>>], [r \in 1..Len(rows) |-> r])

---------------------------------------------------------------------------
(* the content of a cell: paragraphs are divided by two line breaks *)
Br == Atom("BR", {}, 0)
CellContent(c) ==
  LET ev == CellEvents(c) IN
  IF \E k \in 1..Len(ev) : ev[k].e = "code" THEN [any |-> TRUE, at |-> <<>>, lk |-> <<>>]
  ELSE FoldLeft(LAMBDA a, k :
         LET n == Len(a.lk)
             at == [j \in 1..Len(ev[k].at) |-> IF ev[k].at[j].l = 0 THEN ev[k].at[j] ELSE [ev[k].at[j] EXCEPT !.l = @ + (IF k = 1 THEN 0 ELSE n)]]
         IN [any |-> FALSE, at |-> (IF a.at = <<>> THEN <<>> ELSE a.at \o <<Br, Br>>) \o at, lk |-> a.lk \o ev[k].lk],
       [any |-> FALSE, at |-> <<>>, lk |-> <<>>], [k \in 1..Len(ev) |-> k])
NoContent == [any |-> FALSE, at |-> <<>>, lk |-> <<>>]
IsEmpty(c) == ~c.any /\ c.at = <<>>

(* the rows that the reader must see, or "none" *)
Expected(t) ==
  LET rows == Ordered(t)
      g    == Grid(rows)
      all  == {<<1, 0>>} \cup DOMAIN g
      hgt  == CHOOSE n \in {s[1] : s \in all} \cup {Len(rows)} : \A m \in {s[1] : s \in all} \cup {Len(rows)} : m <= n
      wid0 == CHOOSE n \in {s[2] : s \in all} : \A m \in {s[2] : s \in all} : m <= n
      At2(y, x) == IF <<y, x>> \notin DOMAIN g THEN NoContent
                   ELSE LET s == g[<<y, x>>] IN
                        IF s[3] \/ t.opt.span = "mirror" THEN CellContent(rows[s[1]][s[2]]) ELSE NoContent
      full == [y \in 1..hgt |-> [x \in 1..wid0 |-> At2(y, x)]]
      Blank2(row) == \A x \in 1..Len(row) : IsEmpty(row[x])
      kept == IF t.opt.skip THEN SelectSeq([y \in 1..hgt |-> [y |-> y, r |-> full[y]]], LAMBDA q : q.y = 1 \/ ~Blank2(q.r))
              ELSE [y \in 1..hgt |-> [y |-> y, r |-> full[y]]]
      kept2 == IF t.opt.skip /\ Len(kept) = 1 /\ Blank2(kept[1].r) THEN <<>> ELSE kept
      isProm == t.opt.promote /\ kept2 # <<>> /\ Blank2(kept2[1].r)
      prom == IF isProm THEN Tail(kept2) ELSE kept2
      (* a row that is left out does not count for the width *)
      kys  == {0} \cup {s[2] : s \in {q \in DOMAIN g : \E k \in 1..Len(prom) : prom[k].y = q[1]}}
      wid  == CHOOSE n \in kys : \A m \in kys : m <= n
  IN [w |-> wid, rows |-> [k \in 1..Len(prom) |-> SubSeq(prom[k].r, 1, wid)]]

Alignments(t, w) ==
  LET h   == HeaderRow(t)
      row == IF h = 0 THEN t.rows[1].cells ELSE t.rows[h].cells
      al  == FoldLeft(LAMBDA a, c : a \o [k \in 1..Span(c.cs) |-> IF c.al \in {"left", "center", "right"} THEN c.al ELSE "none"], <<>>, row)
  IN [x \in 1..w |-> IF x <= Len(al) THEN al[x] ELSE "none"]

BadParent == {"strong", "b", "em", "i", "del", "s", "strike", "h2", "a"}
Cells2(t) == Concat([r \in 1..Len(t.rows) |-> t.rows[r].cells])
AnyCell(t, P(_)) == \E k \in 1..Len(Cells2(t)) : P(Cells2(t)[k])

Converted(t) ==
  /\ t.role # "presentation" \/ t.opt.pres
  /\ ~AnyCell(t, Unfit)
  /\ t.ctx \notin BadParent
  /\ ~AnyCell(t, MultiLine) \/ t.opt.nl = "preserve"
  /\ Expected(t).rows # <<>>
============================================================================
