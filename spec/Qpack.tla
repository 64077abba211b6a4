------------------------------- MODULE Qpack -------------------------------
(* QPACK field sections that use the static table only (RFC 9204). Headers are
   pairs <<name, value>>. *)
EXTENDS Literal

HasUpper(name) == \E k \in DOMAIN name : name[k] \in 65..90

\* The two-byte prefix: no dynamic table.
QpackPrefix == <<0, 0>>

(* One field line (instruction) at s[i..e]. *)
IndexedLine(s, i, e) ==
  IF (s[i] \div 64) % 2 = 0 THEN Fail("qpack_decompression_failed")
  ELSE LET x == PrefixDecode(s, i, e, 6) IN
  IF x.r # "ok" THEN x
  ELSE IF IntOf(x.v) > 98 THEN Fail("qpack_decompression_failed")
  ELSE Ok(StaticTable[IntOf(x.v) + 1], x.n)

NameReferenceLine(s, i, e) ==
  IF (s[i] \div 16) % 2 = 0 THEN Fail("qpack_decompression_failed")
  ELSE LET x == PrefixDecode(s, i, e, 4) IN
  IF x.r # "ok" THEN x
  ELSE IF IntOf(x.v) > 98 THEN Fail("qpack_decompression_failed")
  ELSE LET v == LiteralDecode(s, i + x.n, e, 7) IN
  IF v.r # "ok" THEN v
  ELSE Ok(<<StaticTable[IntOf(x.v) + 1][1], v.v>>, x.n + v.n)

LiteralLine(s, i, e) ==
  LET x == LiteralDecode(s, i, e, 3) IN
  IF x.r # "ok" THEN x
  ELSE LET v == LiteralDecode(s, i + x.n, e, 7) IN
  IF v.r # "ok" THEN v
  ELSE IF HasUpper(x.v) THEN Fail("malformed_header")
  ELSE Ok(<<x.v, v.v>>, x.n + v.n)

LineDecode(s, i, e) ==
  IF i > e THEN Inc
  ELSE IF s[i] >= 128 THEN IndexedLine(s, i, e)
  ELSE IF s[i] >= 64 THEN NameReferenceLine(s, i, e)
  ELSE IF s[i] >= 32 THEN LiteralLine(s, i, e)
  ELSE Fail("qpack_decompression_failed")     \* post-base

(* Decoding one header at s[i..e] with or without the prefix still to come:
   `p' is the number of bytes consumed for the prefix in any case. *)
HeaderDecode(s, i, e, started) ==
  LET p == IF started THEN 0 ELSE 2
      res(r, v, used, n) == [r |-> r, v |-> v, p |-> used, n |-> n]
  IN IF e - i + 1 < p THEN res("incomplete", <<>>, 0, 0)
     ELSE LET d == LineDecode(s, i + p, e) IN res(d.r, d.v, p, d.n)

RECURSIVE LinesFrom(_, _, _, _)
\* All field lines of s[i..e]: [r, hs, n] with the result that stopped it.
LinesFrom(s, i, e, hs) ==
  IF i > e THEN [r |-> "end", hs |-> hs, at |-> i]
  ELSE LET d == LineDecode(s, i, e) IN
       IF d.r # "ok" THEN [r |-> d.r, hs |-> hs, at |-> i]
       ELSE LinesFrom(s, i + d.n, e, Append(hs, d.v))

\* Is `b' an encoding of the header? (Which one of the possible encodings is
\* used is up to the encoder, but it may only refer to the static table.)
IsLineOf(b, h) ==
  LET d == LineDecode(b, 1, Len(b)) IN
  d.r = "ok" /\ d.v = h /\ d.n = Len(b)

=============================================================================
