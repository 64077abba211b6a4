------------------------------- MODULE Bytes -------------------------------
(* Byte strings and 64-bit values.

   Byte strings are sequences of 0..255. Decoders take a string `s' and the
   positions [i, e] of the bytes they may look at, so that no copies are made.

   TLC's integers have 32 bits, so a 64-bit value is an 8-byte big-endian tuple
   ("wide"). Sizes are clamped to Huge when they exceed any trace ever used. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Byte == 0..255

Huge == 1073741824          \* 2^30

Sub(s, i, e) == SubSeq(s, i, e)
From(s, i) == SubSeq(s, i, Len(s))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Pow2 == [n \in 0..30 |-> CASE n = 30 -> 1073741824 [] OTHER -> 2^n]

----------------------------------------------------------------------------
(* Wide values *)

Wide0 == <<0, 0, 0, 0, 0, 0, 0, 0>>
WideMax == <<255, 255, 255, 255, 255, 255, 255, 255>>

\* The wide value of 0 <= n < 2^31.
WideOf(n) == <<0, 0, 0, 0, (n \div 16777216) % 256, (n \div 65536) % 256,
               (n \div 256) % 256, n % 256>>

\* Does the wide value fit in 62 bits (the range of a varint)?
Fits62(w) == w[1] < 64

FitsInt(w) == w[1] = 0 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0 /\ w[5] < 64

\* Clamped to Huge.
IntOf(w) == IF FitsInt(w)
            THEN ((w[5] * 256 + w[6]) * 256 + w[7]) * 256 + w[8]
            ELSE Huge

WBit(w, b) == (w[8 - (b \div 8)] \div Pow2[b % 8]) % 2

RECURSIVE WAddCarry(_, _, _, _)
\* w + n for 0 <= n < 2^23, from byte k (8 = least significant) upwards;
\* a ninth byte in front holds the carry.
WAddCarry(w, k, c, acc) ==
  IF k = 0 THEN <<c>> \o acc
  ELSE LET t == w[k] + c IN WAddCarry(w, k - 1, t \div 256, <<t % 256>> \o acc)

\* [ok, v]: w + n, ok = FALSE when it exceeds 64 bits.
WAdd(w, n) ==
  LET r == WAddCarry(w, 8, n, <<>>) IN
  [ok |-> r[1] = 0, v |-> SubSeq(r, 2, 9)]

RECURSIVE WSubBorrow(_, _, _, _)
WSubBorrow(w, k, b, acc) ==
  IF k = 0 THEN acc
  ELSE LET t == w[k] - b IN
       IF t >= 0
       THEN WSubBorrow(w, k - 1, 0, <<t>> \o acc)
       ELSE WSubBorrow(w, k - 1, 1, <<t + 256>> \o acc)

\* w - n for n <= 255 and w >= n.
WSub(w, n) == WSubBorrow(w, 8, n, <<>>)

RECURSIVE WLeqFrom(_, _, _)
WLeqFrom(a, b, k) ==
  IF k > 8 THEN TRUE
  ELSE IF a[k] < b[k] THEN TRUE
  ELSE IF a[k] > b[k] THEN FALSE
  ELSE WLeqFrom(a, b, k + 1)
WLeq(a, b) == WLeqFrom(a, b, 1)

----------------------------------------------------------------------------
(* Results of decoding: n is the number of bytes used. *)

Ok(v, n) == [r |-> "ok", v |-> v, n |-> n]
Fail(e) == [r |-> e, v |-> <<>>, n |-> 0]
Inc == Fail("incomplete")

=============================================================================
