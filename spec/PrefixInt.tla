----------------------------- MODULE PrefixInt -----------------------------
(* HPACK/QPACK prefix integers (RFC 7541, section 5.1) of up to 64 bits. *)
EXTENDS Bytes

\* Digits of 7 bits, least significant first.
Digits7(w) ==
  [k \in 1..10 |->
     LET bit(t) == IF 7 * (k - 1) + t > 63 THEN 0
                   ELSE WBit(w, 7 * (k - 1) + t) * Pow2[t]
     IN bit(0) + bit(1) + bit(2) + bit(3) + bit(4) + bit(5) + bit(6)]

RECURSIVE LastNonZero(_, _)
LastNonZero(d, k) == IF k = 1 \/ d[k] # 0 THEN k ELSE LastNonZero(d, k - 1)

\* The encoding of w with a prefix of p bits; `high' are the bits above the
\* prefix in the first byte (a multiple of 2^p).
PrefixEncode(w, p, high) ==
  LET max == Pow2[p] - 1 IN
  IF WLeq(WideOf(max), w)
  THEN LET d == Digits7(WSub(w, max))
           n == LastNonZero(d, 10)
       IN <<high + max>> \o
          [k \in 1..n |-> IF k < n THEN d[k] + 128 ELSE d[k]]
  ELSE <<high + w[8]>>

\* Value of base-128 digits (least significant first) as a wide value.
FromDigits7(d) ==
  LET dbit(b) == LET k == (b \div 7) + 1 IN
                 IF k > Len(d) THEN 0 ELSE (d[k] \div Pow2[b % 7]) % 2
      byte(j) == dbit(8*j) + 2 * dbit(8*j+1) + 4 * dbit(8*j+2)
                 + 8 * dbit(8*j+3) + 16 * dbit(8*j+4) + 32 * dbit(8*j+5)
                 + 64 * dbit(8*j+6) + 128 * dbit(8*j+7)
  IN [k \in 1..8 |-> byte(8 - k)]

RECURSIVE Continuation(_, _, _, _)
\* Number of bytes from i up to and including the first one below 128, or 0.
Continuation(s, i, e, n) ==
  IF i > e THEN 0
  ELSE IF s[i] < 128 THEN n + 1
  ELSE Continuation(s, i + 1, e, n + 1)

RECURSIVE TooLarge(_, _, _)
\* Do the digits from the k-th one exceed 64 bits?
TooLarge(d, k, n) ==
  IF k > n THEN FALSE
  ELSE (k = 10 /\ d[k] > 1) \/ (k > 10 /\ d[k] > 0) \/ TooLarge(d, k + 1, n)

(* Decoding. A value that does not fit in 64 bits is refused, as is an encoding
   with more continuation bytes than any 64-bit value needs. *)
PrefixDecode(s, i, e, p) ==
  IF i > e THEN Inc
  ELSE
  LET max == Pow2[p] - 1
      first == s[i] % Pow2[p]
  IN IF first < max THEN Ok(WideOf(first), 1)
     ELSE
     LET n == Continuation(s, i + 1, e, 0)
         m == IF n = 0 THEN e - i ELSE n       \* continuation bytes at hand
         d == [k \in 1..m |-> s[i + k] % 128]
     IN IF m > 10 \/ TooLarge(d, 10, m) THEN Fail("qpack_decompression_failed")
        ELSE LET sum == WAdd(FromDigits7(d), max) IN
             IF ~sum.ok THEN Fail("qpack_decompression_failed")
             ELSE IF n = 0 THEN Inc
             ELSE Ok(sum.v, n + 1)

=============================================================================
