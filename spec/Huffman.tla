------------------------------ MODULE Huffman ------------------------------
(* The Huffman code of HPACK and QPACK (RFC 7541, section 5.2). *)
EXTENDS Bytes, Tables

\* Bits of every symbol, most significant first.
HuffmanBits == [c \in 0..255 |->
  LET code == HuffmanTable[c + 1][1]
      n == HuffmanTable[c + 1][2]
  IN [k \in 1..n |-> (code \div Pow2[n - k]) % 2]]

\* Symbols by length and code.
HuffmanSymbols == [n \in 1..30 |->
  LET syms == {c \in 0..255 : HuffmanTable[c + 1][2] = n}
  IN [code \in {HuffmanTable[c + 1][1] : c \in syms} |->
        CHOOSE c \in syms : HuffmanTable[c + 1][1] = code]]

HuffmanBitCount(s) == FoldLeft(LAMBDA n, c : n + HuffmanTable[c + 1][2], 0, s)
HuffmanSize(s) == (HuffmanBitCount(s) + 7) \div 8

\* Packs bits into bytes, padding the last one with ones.
PackBits(bits) ==
  LET bit(k) == IF k > Len(bits) THEN 1 ELSE bits[k] IN
  [j \in 1..((Len(bits) + 7) \div 8) |->
     128 * bit(8*j-7) + 64 * bit(8*j-6) + 32 * bit(8*j-5) + 16 * bit(8*j-4)
     + 8 * bit(8*j-3) + 4 * bit(8*j-2) + 2 * bit(8*j-1) + bit(8*j)]

RECURSIVE BitsOf(_, _, _)
BitsOf(s, i, e) ==
  IF e < i THEN <<>>
  ELSE IF e = i THEN HuffmanBits[s[i]]
  ELSE LET m == (i + e) \div 2 IN BitsOf(s, i, m) \o BitsOf(s, m + 1, e)

HuffmanEncode(s) == PackBits(BitsOf(s, 1, Len(s)))

UnpackBits(s, i, e) ==
  [k \in 1..(8 * (e - i + 1)) |->
     (s[i + ((k - 1) \div 8)] \div Pow2[7 - ((k - 1) % 8)]) % 2]

\* State: <<code so far, its length, decoded symbols, failed>>.
HuffmanStep(st, b) ==
  IF st[4] THEN st
  ELSE LET code == 2 * st[1] + b
           n == st[2] + 1
       IN IF code \in DOMAIN HuffmanSymbols[n]
          THEN <<0, 0, Append(st[3], HuffmanSymbols[n][code]), FALSE>>
          ELSE IF n = 30 THEN <<0, 0, <<>>, TRUE>>   \* end of string symbol
          ELSE <<code, n, st[3], FALSE>>

\* Decodes exactly the bytes s[i..e].
HuffmanDecode(s, i, e) ==
  LET st == FoldLeft(HuffmanStep, <<0, 0, <<>>, FALSE>>, UnpackBits(s, i, e))
  IN IF st[4] \/ st[2] > 7 \/ st[1] # Pow2[st[2]] - 1
     THEN Fail("qpack_decompression_failed")
     ELSE Ok(st[3], e - i + 1)

=============================================================================
