------------------------------- MODULE Varint -------------------------------
(* QUIC variable-length integers (RFC 9000, section 16). *)
EXTENDS Bytes

\* Size of the shortest encoding of a wide value below 2^62.
VarintSize(w) ==
  IF w[1] # 0 \/ w[2] # 0 \/ w[3] # 0 \/ w[4] # 0 \/ w[5] >= 64 THEN 8
  ELSE IF w[5] # 0 \/ w[6] # 0 \/ w[7] >= 64 THEN 4
  ELSE IF w[7] # 0 \/ w[8] >= 64 THEN 2
  ELSE 1

VarintTag == [n \in {1, 2, 4, 8} |->
                CASE n = 1 -> 0 [] n = 2 -> 64 [] n = 4 -> 128 [] n = 8 -> 192]

\* The shortest encoding.
VarintEncode(w) ==
  LET n == VarintSize(w)
      b == SubSeq(w, 9 - n, 8)
  IN [b EXCEPT ![1] = @ + VarintTag[n]]

VarintLen(first) == LET h == first \div 64 IN
                    CASE h = 0 -> 1 [] h = 1 -> 2 [] h = 2 -> 4 [] h = 3 -> 8

\* Decodes the varint at s[i..e].
VarintDecode(s, i, e) ==
  IF i > e THEN Inc
  ELSE LET n == VarintLen(s[i]) IN
       IF e - i + 1 < n THEN Inc
       ELSE Ok([k \in 1..8 |->
                  IF k < 9 - n THEN 0
                  ELSE IF k = 9 - n THEN s[i] % 64
                  ELSE s[i + k - 9 + n]], n)

=============================================================================
