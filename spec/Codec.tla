------------------------------- MODULE Codec -------------------------------
(* Recorded calls of the codecs, judged one by one. *)
EXTENDS Frame, Qpack

Verdict(ok, why) == IF ok THEN "" ELSE why

\* The remaining bytes after a decode that started after e.skip bytes.
RestAfter(e, used) ==
  /\ e.used = used
  /\ e.rest = From(e.in, e.skip + used + 1)
  /\ "under" \in DOMAIN e => e.under = e.in

DecodeOf(e) ==
  LET i == e.skip + 1
      n == Len(e.in)
  IN CASE e.what = "varint" -> VarintDecode(e.in, i, n)
       [] e.what = "pint" -> PrefixDecode(e.in, i, n, e.p)
       [] e.what = "lit" -> LiteralDecode(e.in, i, n, e.p)
       [] e.what = "huff" -> IF n - e.skip < e.p THEN Inc
                             ELSE HuffmanDecode(e.in, i, e.skip + e.p)

JudgeDecode(e) ==
  LET i == e.skip + 1
      n == Len(e.in)
  IN
  CASE e.what = "frame" ->
         LET d == FrameDecode(e.in, i, n) IN
         Verdict(/\ e.r = d.r
                 /\ d.r = "ok" => e.t = d.v.t /\ e.f = d.v.f
                 /\ RestAfter(e, d.skipped + d.n), "frame decode")
    [] e.what = "peek" ->
         LET d == FramePeek(e.in, i, n) IN
         Verdict(/\ e.r = d.r
                 /\ d.r = "ok" => e.t = d.v
                 /\ RestAfter(e, 0), "frame peek")
    [] OTHER ->
         LET d == DecodeOf(e) IN
         Verdict(/\ e.r = d.r
                 /\ d.r = "ok" => e.v = d.v
                 /\ RestAfter(e, d.n), "decode")

JudgeVarint(e) ==
  IF Fits62(e.v)
  THEN LET b == VarintEncode(e.v) IN
       Verdict(/\ e.sr = "ok" /\ e.size = Len(b)
               /\ e.rr = "ok" /\ e.raw = b /\ e.clean
               /\ e.br = "ok" /\ e.buf = b, "varint encode")
  ELSE Verdict(e.sr = "varint_overflow" /\ e.rr = "varint_overflow"
               /\ e.br = "varint_overflow", "varint overflow")

JudgeFrame(e) ==
  IF ~(e.t = e.ft /\ e.f = e.ff) THEN "frame construction"
  ELSE IF FrameFits(e.t, e.f)
  THEN Verdict(/\ e.sr = "ok" /\ e.size = Len(FrameEncode(e.t, e.f))
               /\ e.br = "ok" /\ IsFrameEncoding(e.buf, e.t, e.f)
               /\ e.rr = "ok" /\ IsFrameEncoding(e.raw, e.t, e.f), "frame encode")
  ELSE Verdict(e.sr = "varint_overflow" /\ e.rr = "varint_overflow"
               /\ e.br = "varint_overflow", "frame overflow")

JudgeFrameEq(e) ==
  LET same == e.t1 = e.t2 /\ e.f1 = e.f2 IN
  Verdict(e.eq = same /\ e.ne = ~same, "frame equality")

JudgePrefixInt(e) ==
  LET b == PrefixEncode(e.v, e.p, e.first) IN
  Verdict(/\ e.size = Len(b) /\ e.raw = b /\ e.clean
          /\ e.buf = PrefixEncode(e.v, e.p, 0), "prefix integer encode")

JudgeHuffman(e) ==
  LET b == HuffmanEncode(e.s) IN
  Verdict(e.size = Len(b) /\ e.raw = b /\ e.buf = b /\ e.clean, "huffman encode")

JudgeLiteral(e) ==
  LET b == LiteralEncode(e.s, e.p, e.first) IN
  Verdict(/\ e.size = Len(b) /\ e.raw = b /\ e.clean
          /\ e.buf = LiteralEncode(e.s, e.p, 0), "literal encode")

\* A whole header block, decoded header by header until the first error.
JudgeBlock(e) ==
  IF Len(e.in) < 2
  THEN Verdict(e.hs = <<>> /\ e.r = "incomplete" /\ e.count = 0 /\ e.rest = e.in,
               "header block")
  ELSE LET l == LinesFrom(e.in, 3, Len(e.in), <<>>) IN
       Verdict(/\ e.hs = l.hs
               /\ e.r = (IF l.r = "end" THEN "incomplete" ELSE l.r)
               /\ e.count = l.at - 1
               /\ e.rest = From(e.in, l.at), "header block")

=============================================================================
