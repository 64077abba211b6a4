------------------------------ MODULE MC_Codec ------------------------------
(* All byte strings of a bounded universe, which grow byte by byte, decoded with
   the decoders of the specification. Checked are the laws that make them
   decoders of a self-delimiting encoding: an answer never changes when more
   bytes arrive, a shorter input is incomplete, what was decoded is encoded in no
   more bytes and decodes to the same.

   The strings that are reached, and the values they stand for, are inputs of the
   implementation. *)
EXTENDS Codec, Json

CONSTANTS What,      \* "varint", "pint", "lit", "huff", "frame", "line"
          P,         \* number of prefix bits ("pint" and "lit")
          Alphabet,  \* the bytes that are appended
          N,         \* how many
          Scripts

Rep(b, n) == [k \in 1..n |-> b]

\* What a string starts with.
Seeds ==
  {<<>>} \cup
  CASE What = "varint" -> {<<b>> : b \in {64, 128, 192, 255}}
                          \cup {<<192, 0, 0, 0>>, <<192, 0, 0, 0, 63>>, <<192, 0, 0, 0, 64>>,
                                <<255, 255, 255, 255, 255>>}
    [] What = "pint" ->
         LET m == Pow2[P] - 1
             h == 256 - Pow2[P]
         IN {<<m>>, <<h + m>>} \cup {<<m>> \o Rep(x, k) : x \in {128, 255}, k \in {4, 8, 9}}
            \cup {<<m, 255 - m + 1 >> \o Rep(255, 7)}
    [] What = "lit" -> {<<Pow2[P]>>, <<Pow2[P] - 1>>, <<2 * Pow2[P] - 1>>,
                        <<2 * Pow2[P] - 1, 128>>, <<Pow2[P] - 1>> \o Rep(128, 8)}
    [] What = "huff" -> {<<255>>, <<255, 255>>, <<255, 255, 255>>, <<254>>}
    [] What = "frame" -> {<<c>> : c \in KnownCodes \cup {33}}
                         \cup {<<4, 4>>, <<4, 5>>, <<2, 4>>, <<2, 5>>, <<5, 3>>, <<64>>,
                               <<33, 2>>, <<0, 192, 0, 0, 0, 0, 0>>}
    [] What = "line" -> {<<255>>, <<95>>, <<35>>, <<39>>, <<43>>, <<192>>, <<80>>, <<33, 97>>}

VARIABLES s, n
vars == <<s, n>>

----------------------------------------------------------------------------

\* [r, v, n, skipped]
Decode(t) ==
  LET k == Len(t)
      plain(d) == [r |-> d.r, v |-> d.v, n |-> d.n, skipped |-> 0]
  IN CASE What = "varint" -> plain(VarintDecode(t, 1, k))
       [] What = "pint" -> plain(PrefixDecode(t, 1, k, P))
       [] What = "lit" -> plain(LiteralDecode(t, 1, k, P))
       [] What = "huff" -> plain(HuffmanDecode(t, 1, k))
       [] What = "line" -> plain(LineDecode(t, 1, k))
       [] What = "frame" -> LET d == FrameDecode(t, 1, k) IN
                            [r |-> d.r, v |-> IF d.r = "ok" THEN d.v ELSE <<>>,
                             n |-> d.n, skipped |-> d.skipped]

Encode(v) ==
  CASE What = "varint" -> VarintEncode(v)
    [] What = "pint" -> PrefixEncode(v, P, 0)
    [] What = "lit" -> LiteralEncode(v, P, 0)
    [] What = "huff" -> HuffmanEncode(v)
    [] What = "frame" -> FrameEncode(v.t, v.f)

Init == n = 0 /\ s \in Seeds
Next == n < N /\ \E b \in Alphabet : s' = Append(s, b) /\ n' = n + 1
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------

Stream == What # "huff"        \* self-delimiting

\* An answer never changes when more bytes arrive; complete unknown frames stay
\* skipped, even when the rest is decoded by itself.
Steady ==
  [][LET d == Decode(s)
         e == Decode(s')
         rest == Decode(From(s', d.skipped + 1))
     IN Stream => /\ d.r # "incomplete" => e = d
                  /\ e.skipped >= d.skipped
                  /\ rest = [e EXCEPT !.skipped = @ - d.skipped]]_vars

\* The bytes that an answer used are needed and suffice.
Delimited ==
  LET d == Decode(s)
      k == d.skipped + d.n
  IN /\ d.skipped <= Len(s)
     /\ Stream /\ d.r = "ok" =>
       /\ k <= Len(s)
       /\ Decode(SubSeq(s, 1, k)) = d
       /\ \A j \in 0..(k - 1) : Decode(SubSeq(s, 1, j)).r = "incomplete"

\* An encoding that was made longer with zero digits.
Padded(b, k) ==
  IF Len(b) = k THEN b
  ELSE [j \in 1..k |-> IF j < Len(b) THEN b[j]
                       ELSE IF j = Len(b) THEN (IF j = 1 THEN b[j] ELSE b[j] + 128)
                       ELSE IF j < k THEN 128 ELSE 0]

\* What was decoded can be encoded, in no more bytes, and decodes to the same.
\* (Settings that were not given are written all the same.)
Canonical ==
  LET d == Decode(s) IN
  d.r = "ok" =>
    CASE What = "line" -> ~HasUpper(d.v[1]) \/ \E k \in 1..99 : StaticTable[k][1] = d.v[1]
      [] What = "huff" -> Encode(d.v) = s
      [] What = "frame" ->
           FrameFits(d.v.t, d.v.f) =>
             LET b == Encode(d.v)
                 e == Decode(b)
             IN /\ e.r = "ok" /\ e.n = Len(b) /\ e.v = d.v
                /\ d.v.t # "settings" => Len(b) <= d.n
                /\ IsFrameEncoding(b, d.v.t, d.v.f)
      [] OTHER -> LET b == Encode(d.v)
                      e == Decode(b)
                  IN /\ e.r = "ok" /\ e.n = Len(b) /\ e.v = d.v /\ Len(b) <= d.n
                     /\ What = "pint" => Padded(b, d.n) = [SubSeq(s, 1, d.n) EXCEPT ![1] = @ % Pow2[P]]

\* Strings, encoded and decoded.
RoundTrip ==
  CASE What = "huff" -> LET b == HuffmanEncode(s)
                            d == HuffmanDecode(b, 1, Len(b))
                        IN d.r = "ok" /\ d.v = s /\ Len(b) = HuffmanSize(s)
    [] What = "lit" -> LET b == LiteralEncode(s, P, 0)
                           d == LiteralDecode(b, 1, Len(b), P)
                       IN /\ d.r = "ok" /\ d.v = s /\ d.n = Len(b)
                          /\ Len(b) <= Len(PrefixEncode(WideOf(Len(s)), P, 0)) + Len(s)
    [] OTHER -> TRUE

\* A look at the type agrees with the decoder.
Peeking ==
  What = "frame" =>
    LET d == FrameDecode(s, 1, Len(s))
        p == FramePeek(s, 1, Len(s))
    IN /\ d.r # "incomplete" => p.r = "ok" /\ p.v = d.t
       /\ d.r = "ok" => d.v.t = d.t
       /\ p.r \in {"ok", "incomplete"}

----------------------------------------------------------------------------
(* The tables: the Huffman code is a complete prefix code (with the symbol that
   ends a string and is never used), the static table has no doubles. *)

RECURSIVE Kraft(_)
Kraft(c) == IF c = 256 THEN 1 ELSE Pow2[30 - HuffmanTable[c + 1][2]] + Kraft(c + 1)
PrefixFree ==
  \A a, b \in 0..255 : a # b => ~IsPrefixOf(HuffmanBits[a], HuffmanBits[b])
ASSUME Len(HuffmanTable) = 256 /\ Kraft(0) = Pow2[30] /\ (What = "huff" => PrefixFree)
ASSUME Len(StaticTable) = 99 /\ \A a, b \in 1..99 : StaticTable[a] = StaticTable[b] => a = b
ASSUME \A k \in 1..99 : ~HasUpper(StaticTable[k][1])

Show == Scripts =>
  LET d == Decode(s) IN
  PrintT("SCRIPT " \o ToJson([s |-> s, r |-> d.r, v |-> d.v]))

=============================================================================
