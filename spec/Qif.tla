--------------------------------- MODULE Qif ---------------------------------
(* The QPACK interop tools: header lists as text and as a file of numbered,
   length-prefixed header blocks.

   Text: every line is a header <name> TAB <value> (the first TAB separates), a
   comment that starts with #, or empty; empty lines end a header list, and so
   does the end of the file. *)
EXTENDS Qpack

TAB == 9
LF == 10

Positions(s, c) == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : s[k] = c)

\* The lines of a text as [from, to]; what follows the last LF counts when it is
\* not empty.
LinesOf(s) ==
  LET ends == Positions(s, LF)
      n == Len(ends)
      all == [k \in 1..n + 1 |-> [from |-> IF k = 1 THEN 1 ELSE ends[k - 1] + 1,
                                  to |-> IF k = n + 1 THEN Len(s) ELSE ends[k] - 1]]
  IN IF n = 0 \/ ends[n] < Len(s) THEN all ELSE SubSeq(all, 1, n)

RECURSIVE FirstTab(_, _, _)
FirstTab(s, i, e) ==
  IF i > e THEN 0 ELSE IF s[i] = TAB THEN i ELSE FirstTab(s, i + 1, e)

\* One line: acc = [ok, lists, cur].
OnLine(s, acc, line) ==
  LET i == line.from
      e == line.to
  IN IF ~acc.ok THEN acc
     ELSE IF i > e
     THEN IF acc.cur = <<>> THEN acc
          ELSE [acc EXCEPT !.lists = Append(@, acc.cur), !.cur = <<>>]
     ELSE IF s[i] = 35 THEN acc
     ELSE LET t == FirstTab(s, i, e) IN
          IF t = 0 THEN [acc EXCEPT !.ok = FALSE]
          ELSE LET name == Sub(s, i, t - 1) IN
               IF HasUpper(name) THEN [acc EXCEPT !.ok = FALSE]
               ELSE [acc EXCEPT !.cur = Append(@, <<name, Sub(s, t + 1, e)>>)]

\* [ok, lists]
ParseText(s) ==
  LET r == FoldLeft(LAMBDA acc, line : OnLine(s, acc, line),
                    [ok |-> TRUE, lists |-> <<>>, cur |-> <<>>], LinesOf(s))
  IN [ok |-> r.ok,
      lists |-> IF r.cur = <<>> THEN r.lists ELSE Append(r.lists, r.cur)]

----------------------------------------------------------------------------
(* The binary file. *)

\* The block at s[i..]: [ok, id, hs, next].
BlockAt(s, i) ==
  LET bad == [ok |-> FALSE, id |-> Wide0, hs |-> <<>>, next |-> i] IN
  IF Len(s) - i + 1 < 12 THEN bad
  ELSE LET size == IntOf(<<0, 0, 0, 0>> \o Sub(s, i + 8, i + 11))
           first == i + 12
       IN IF size < 2 \/ size > Len(s) - first + 1 THEN bad
          ELSE LET l == LinesFrom(s, first + 2, first + size - 1, <<>>) IN
               [ok |-> l.r = "end", id |-> Sub(s, i, i + 7), hs |-> l.hs,
                next |-> first + size]

RECURSIVE BlocksFrom(_, _, _)
\* [ok, ids, lists]
BlocksFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET b == BlockAt(s, i) IN
       IF ~b.ok THEN [acc EXCEPT !.ok = FALSE]
       ELSE BlocksFrom(s, b.next, [acc EXCEPT !.ids = Append(@, b.id),
                                              !.lists = Append(@, b.hs)])
ParseBlocks(s) == BlocksFrom(s, 1, [ok |-> TRUE, ids |-> <<>>, lists |-> <<>>])

NumberedFromOne(ids) == \A k \in DOMAIN ids : ids[k] = WideOf(k)

\* Is s a binary file for the lists?
IsBinaryOf(s, lists) ==
  LET p == ParseBlocks(s) IN p.ok /\ p.lists = lists /\ NumberedFromOne(p.ids)

\* Is s, from i on, the text of the lists, each followed by an empty line?
TextOfList(hs) ==
  FoldLeft(LAMBDA acc, h : acc \o h[1] \o <<TAB>> \o h[2] \o <<LF>>, <<>>, hs) \o <<LF>>

RECURSIVE IsTextFrom(_, _, _, _)
IsTextFrom(s, i, lists, k) ==
  IF k > Len(lists) THEN i = Len(s) + 1
  ELSE LET x == TextOfList(lists[k]) IN
       /\ i + Len(x) - 1 <= Len(s)
       /\ Sub(s, i, i + Len(x) - 1) = x
       /\ IsTextFrom(s, i + Len(x), lists, k + 1)
IsTextOf(s, lists) == IsTextFrom(s, 1, lists, 1)

\* Lists that the text format cannot express (a decoder may refuse them).
Expressible(lists) ==
  \A k \in DOMAIN lists :
    /\ lists[k] # <<>>
    /\ \A j \in DOMAIN lists[k] :
         LET n == lists[k][j][1] IN
         /\ (n = <<>> \/ n[1] # 35)
         /\ \A x \in DOMAIN n : n[x] \notin {TAB, LF}
         /\ \A x \in DOMAIN lists[k][j][2] : lists[k][j][2][x] # LF

----------------------------------------------------------------------------
(* Recorded runs of the tools. *)

QVerdict(ok, why) == IF ok THEN "" ELSE why

JudgeQifEncode(e) ==
  LET p == ParseText(e.in) IN
  IF p.ok THEN QVerdict(e.s = "ok" /\ IsBinaryOf(e.out, p.lists), "QIF encode")
  ELSE QVerdict(e.s = "fail", "QIF encode of a file that is not valid")

JudgeQifDecode(e) ==
  LET p == ParseBlocks(e.in) IN
  IF ~p.ok
  THEN \* an empty header block may pass for an empty header list
       QVerdict(e.s = "fail" \/ (e.s = "ok" /\ \E k \in 1..Len(e.in) - 11 :
                                    Sub(e.in, k + 8, k + 11) = <<0, 0, 0, 0>>),
                "QIF decode of a file that is not valid")
  ELSE IF Expressible(p.lists) /\ NumberedFromOne(p.ids)
  THEN QVerdict(e.s = "ok" /\ IsTextOf(e.out, p.lists), "QIF decode")
  ELSE QVerdict(e.s = "fail" \/ (e.s = "ok" /\ IsTextOf(e.out, p.lists)), "QIF decode")

\* Inputs or outputs that do not work.
JudgeQifEnv(e) ==
  LET usable == e.from = "file"
      p == IF e.tool = "enc" THEN ParseText(e.in) ELSE ParseBlocks(e.in)
      writes == p.ok /\ p.lists # <<>>
  IN IF e.to \in {"none", "one", "missing", "dir"} \/ ~usable \/ ~p.ok
     THEN QVerdict(e.s \in {"fail", "signal"}, "a tool succeeds without its files")
     ELSE IF e.to = "full" /\ writes
     THEN QVerdict(e.s \in {"fail", "signal"}, "a tool loses its output and succeeds")
     ELSE QVerdict(e.s = "ok", "a tool fails")

\* One header with a value of n times a byte that Huffman coding does not shorten.
JudgeQifLong(e) ==
  LET len == PrefixEncode(WideOf(e.n), 7, 0)
      fixed == e.len - e.n - 12 - 2 - Len(len)   \* bytes for the name
      whole == e.head
  IN QVerdict(
       /\ e.s = "ok" /\ e.s2 = "ok" /\ e.same /\ e.tail
       /\ fixed > 0 /\ 14 + fixed + Len(len) <= Len(whole)
       /\ Sub(whole, 1, 8) = WideOf(1)
       /\ <<0, 0, 0, 0>> \o Sub(whole, 9, 12) = WideOf(e.len - 12)
       /\ Sub(whole, 15 + fixed, 14 + fixed + Len(len)) = len
       /\ \A j \in 15 + fixed + Len(len)..Len(whole) : whole[j] = e.byte
       \* with a short value instead of the long one it is that header
       /\ IsLineOf(Sub(whole, 15, 14 + fixed) \o <<1, e.byte>>, <<e.name, <<e.byte>>>>),
       "QIF with a long value")

\* A text (one list that ends with an empty line) n times.
JudgeQifBulk(e) ==
  LET p == ParseText(e.unit)
      head(k) == WideOf(e.blocks[k][1]) \o Sub(WideOf(e.size - 12), 5, 8)
  IN QVerdict(
       /\ p.ok /\ Len(p.lists) = 1
       /\ e.s = "ok" /\ e.s2 = "ok" /\ e.same
       /\ e.len = e.n * e.size
       /\ \A k \in DOMAIN e.blocks :
            LET b == e.blocks[k][2] IN
            /\ Len(b) = e.size
            /\ Sub(b, 1, 12) = head(k)
            /\ BlockAt(b, 1).ok /\ BlockAt(b, 1).hs = p.lists[1],
       "QIF with many lists")

=============================================================================
