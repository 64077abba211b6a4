------------------------------ MODULE Literal ------------------------------
(* String literals (RFC 7541, section 5.2): a Huffman flag above a prefix of p
   bits that holds the length, followed by the string. *)
EXTENDS PrefixInt, Huffman

\* The encoding; `high' are the bits above the Huffman flag (a multiple of
\* 2^(p+1)). Huffman coding is used exactly when it is strictly shorter.
LiteralEncode(s, p, high) ==
  LET hs == HuffmanSize(s) IN
  IF hs < Len(s)
  THEN PrefixEncode(WideOf(hs), p, high + Pow2[p]) \o HuffmanEncode(s)
  ELSE PrefixEncode(WideOf(Len(s)), p, high) \o s

LiteralDecode(s, i, e, p) ==
  LET len == PrefixDecode(s, i, e, p) IN
  IF len.r # "ok" THEN len
  ELSE LET n == IntOf(len.v)
           first == i + len.n
       IN IF n > e - first + 1 THEN Inc
          ELSE IF (s[i] \div Pow2[p]) % 2 = 1
          THEN LET h == HuffmanDecode(s, first, first + n - 1) IN
               IF h.r = "ok" THEN Ok(h.v, len.n + n) ELSE h
          ELSE Ok(SubSeq(s, first, first + n - 1), len.n + n)

=============================================================================
