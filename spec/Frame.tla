------------------------------- MODULE Frame -------------------------------
(* HTTP/3 frames (draft-ietf-quic-http). A frame is [t, f]: its type and its
   fields as wide values, in the order the protocol lists them:

     data, headers        size of the payload (which follows the frame)
     priority             element type, dependency type, element id,
                          dependency id, weight
     settings             max_header_list_size, num_placeholders,
                          qpack_max_table_capacity, qpack_blocked_streams
     push_promise         push id, size of the header block
     others               the one id they carry *)
EXTENDS Varint

Frame(t, f) == [t |-> t, f |-> f]
NoFrame == Frame("none", <<>>)

FrameTypes == {"data", "headers", "priority", "cancel_push", "settings",
               "push_promise", "goaway", "max_push_id", "duplicate_push"}

FrameCode == [t \in FrameTypes |->
  CASE t = "data" -> 0 [] t = "headers" -> 1 [] t = "priority" -> 2
    [] t = "cancel_push" -> 3 [] t = "settings" -> 4 [] t = "push_promise" -> 5
    [] t = "goaway" -> 7 [] t = "max_push_id" -> 13 [] t = "duplicate_push" -> 14]

KnownCodes == {FrameCode[t] : t \in FrameTypes}
FrameOf == [c \in KnownCodes |-> CHOOSE t \in FrameTypes : FrameCode[t] = c]

\* Identifiers of the settings, in the order of the fields.
SettingIds == <<6, 9, 1, 7>>
DefaultSettings == <<<<63, 255, 255, 255, 255, 255, 255, 255>>,
                     Wide0, Wide0, Wide0>>

\* The type that a wide frame code stands for, "unknown" if there is none.
TypeOf(w) == LET c == IntOf(w) IN
             IF c \in KnownCodes THEN FrameOf[c] ELSE "unknown"

----------------------------------------------------------------------------
(* Encoding. The payloads of DATA, HEADERS and the header block of PUSH_PROMISE
   are not part of the encoding but of the length it announces. *)

FrameVarints(t, f) ==
  IF t = "priority" THEN {f[3], f[4]} ELSE {f[k] : k \in DOMAIN f}

\* The self-contained part of the payload. A zero number of placeholders is not
\* written (only servers may send it).
RECURSIVE SettingsBytes(_, _)
SettingsBytes(f, k) ==
  IF k > 4 THEN <<>>
  ELSE (IF k = 2 /\ f[k] = Wide0 THEN <<>>
        ELSE VarintEncode(WideOf(SettingIds[k])) \o VarintEncode(f[k]))
       \o SettingsBytes(f, k + 1)

PriorityBytes(f) ==
  <<64 * f[1][8] + 16 * f[2][8]>> \o VarintEncode(f[3]) \o VarintEncode(f[4])
  \o <<f[5][8]>>

FramePayload(t, f) ==
  CASE t \in {"data", "headers"} -> <<>>
    [] t = "priority" -> PriorityBytes(f)
    [] t = "settings" -> SettingsBytes(f, 1)
    [] OTHER -> VarintEncode(f[1])

\* The length the frame announces: [ok, v].
FrameLength(t, f) ==
  CASE t \in {"data", "headers"} -> [ok |-> TRUE, v |-> f[1]]
    [] t = "push_promise" -> WAdd(f[2], VarintSize(f[1]))
    [] OTHER -> [ok |-> TRUE, v |-> WideOf(Len(FramePayload(t, f)))]

\* Can the frame be expressed on the wire?
FrameFits(t, f) ==
  /\ \A v \in FrameVarints(t, f) : Fits62(v)
  /\ LET n == FrameLength(t, f) IN n.ok /\ Fits62(n.v)

FrameEncode(t, f) ==
  VarintEncode(WideOf(FrameCode[t])) \o VarintEncode(FrameLength(t, f).v)
  \o FramePayload(t, f)

----------------------------------------------------------------------------
(* Decoding the fields of a frame of type t with a payload of n bytes that
   starts at s[i]. Fields may lie beyond the payload: n is compared afterwards.
   Result: n of Ok is the size of the fields. *)

OneId(s, i, e) ==
  LET v == VarintDecode(s, i, e) IN
  IF v.r = "ok" THEN Ok(<<v.v>>, v.n) ELSE v

PriorityFields(s, i, e) ==
  IF i > e THEN Inc
  ELSE LET a == VarintDecode(s, i + 1, e) IN
  IF a.r # "ok" THEN a
  ELSE LET b == VarintDecode(s, i + 1 + a.n, e) IN
  IF b.r # "ok" THEN b
  ELSE LET w == i + 1 + a.n + b.n IN
  IF w > e THEN Inc
  ELSE Ok(<<WideOf(s[i] \div 64), WideOf((s[i] \div 16) % 4), a.v, b.v,
            WideOf(s[w])>>, w - i + 1)

RECURSIVE SettingsFields(_, _, _, _, _, _)
SettingsFields(s, i, e, n, used, f) ==
  IF used >= n THEN Ok(f, used)
  ELSE LET a == VarintDecode(s, i, e) IN
  IF a.r # "ok" THEN a
  ELSE LET b == VarintDecode(s, i + a.n, e) IN
  IF b.r # "ok" THEN b
  ELSE LET id == IntOf(a.v)
           g == IF \E k \in 1..4 : SettingIds[k] = id
                THEN [f EXCEPT ![CHOOSE k \in 1..4 : SettingIds[k] = id] = b.v]
                ELSE f
       IN SettingsFields(s, i + a.n + b.n, e, n, used + a.n + b.n, g)

Fields(t, s, i, e, n) ==
  CASE t = "priority" -> PriorityFields(s, i, e)
    [] t = "settings" -> SettingsFields(s, i, e, n, 0, DefaultSettings)
    [] OTHER -> OneId(s, i, e)

(* The frame that starts at s[i], known or not:
     r = "ok"       a known frame, v; n bytes (without any payload that follows)
     r = "skip"     an unknown frame of n bytes, payload included
     r = "incomplete", "malformed_frame"; t is the type if it is known *)
FrameAt(s, i, e) ==
  LET res(r, t, v, n) == [r |-> r, t |-> t, v |-> v, n |-> n]
      code == VarintDecode(s, i, e)
  IN IF code.r # "ok" THEN res("incomplete", "none", NoFrame, 0)
  ELSE
  LET t == TypeOf(code.v)
      len == VarintDecode(s, i + code.n, e)
  IN IF len.r # "ok" THEN res("incomplete", t, NoFrame, 0)
  ELSE
  LET h == code.n + len.n          \* size of type and length
      n == IntOf(len.v)
      avail == e - (i + h) + 1
  IN IF t = "unknown"
     THEN IF n > avail THEN res("incomplete", t, NoFrame, 0)
          ELSE res("skip", t, NoFrame, h + n)
     ELSE IF t \in {"data", "headers"} THEN res("ok", t, Frame(t, <<len.v>>), h)
     ELSE
     LET f == Fields(t, s, i + h, e, n) IN
     IF f.r # "ok"
     THEN res(IF avail >= n THEN "malformed_frame" ELSE "incomplete", t, NoFrame, 0)
     ELSE IF t = "push_promise"
     THEN IF f.n > n THEN res("malformed_frame", t, NoFrame, 0)
          ELSE res("ok", t, Frame(t, <<f.v[1], WSub(len.v, f.n)>>), h + f.n)
     ELSE IF f.n # n THEN res("malformed_frame", t, NoFrame, 0)
     ELSE res("ok", t, Frame(t, f.v), h + n)

\* Is `b' an encoding of the frame? The order of settings is free.
IsFrameEncoding(b, t, f) ==
  \/ b = FrameEncode(t, f)
  \/ /\ t = "settings"
     /\ Len(b) = Len(FrameEncode(t, f))
     /\ LET d == FrameAt(b, 1, Len(b)) IN
        d.r = "ok" /\ d.v = Frame(t, f) /\ d.n = Len(b)

RECURSIVE SkipUnknown(_, _, _)
\* Position after the complete unknown frames that start at s[i].
SkipUnknown(s, i, e) ==
  LET f == FrameAt(s, i, e) IN
  IF f.r = "skip" THEN SkipUnknown(s, i + f.n, e) ELSE i

\* Decoding: complete unknown frames are consumed in any case (skipped), the
\* frame itself (n bytes) only if it is returned.
FrameDecode(s, i, e) ==
  LET j == SkipUnknown(s, i, e)
      f == FrameAt(s, j, e)
  IN [r |-> f.r, v |-> f.v, t |-> f.t, skipped |-> j - i,
      n |-> IF f.r = "ok" THEN f.n ELSE 0]

\* Peeking needs only the type of the frame that decoding would return.
FramePeek(s, i, e) ==
  LET j == SkipUnknown(s, i, e)
      c == VarintDecode(s, j, e)
  IN IF c.r # "ok" \/ TypeOf(c.v) = "unknown" THEN Inc
     ELSE Ok(TypeOf(c.v), 0)

=============================================================================
