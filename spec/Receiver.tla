------------------------------ MODULE Receiver ------------------------------
(* What an endpoint reports for the bytes it received on a request, response or
   control stream.

   A receiver is a record:
     ph    phase (below)
     buf   bytes received and not yet interpreted
     fin   has the peer ended the stream?
     rem   bytes left of the header block, DATA payload or trailing section
     pre   has the prefix of the header block been read?
     open  has a body chunk been reported, but not yet the end of the body?

   Phases of a request or response stream:
     closed    the client has not sent anything on it yet
     headers   before the HEADERS frame
     block     inside its header block
     body      at a frame boundary after the header block
     data      inside a DATA frame
     trail     inside the trailing header section, which is ignored
     trailed   at a frame boundary after it
     end       the end of the body was reported
     done      the message was reported as finished
     failed    an error was reported
     free      after an unimplemented PUSH_PROMISE or a closed control stream:
               nothing is specified
   Phases of a control stream: type, settings, active, failed, free.

   RequestNext and ControlNext take the outcome `e' of asking for the next event
   and decide whether it is justified. e.r is one of
     "header" (n, v, fin), "body" (d, fin), "finished", "settings" (s),
     "err" (e), "none"
   Result: [ok, st, why]. *)
EXTENDS Frame, Qpack

Receiver(ph) == [ph |-> ph, buf |-> <<>>, fin |-> FALSE, rem |-> 0,
                 pre |-> FALSE, open |-> FALSE]

Yes(st) == [ok |-> TRUE, st |-> st, why |-> ""]
No(why) == [ok |-> FALSE, st |-> <<>>, why |-> why]

\* The outcome must be an error out of `errs' and ends the interpretation.
MustFail(rc, e, errs) ==
  IF e.r = "err" /\ e.e \in errs THEN Yes([rc EXCEPT !.ph = "failed", !.buf = <<>>])
  ELSE No("expected an error")

BlockErrors == {"malformed_frame", "qpack_decompression_failed", "malformed_header"}

\* The answer to a complete frame of type t that is out of place ("" if it is
\* not) on a request or response stream.
RequestFrameError(role, ph, t) ==
  CASE t \in {"settings", "max_push_id", "cancel_push", "goaway"} -> "wrong_stream"
    [] t = "data" -> IF ph = "body" THEN "" ELSE "unexpected_frame"
    [] t = "headers" -> IF ph = "trailed" THEN "unexpected_frame" ELSE ""
    [] t = "priority" -> IF role = "server" /\ ph = "headers"
                         THEN "not_implemented" ELSE "unexpected_frame"
    [] t \in {"push_promise", "duplicate_push"} ->
         IF role = "client" THEN "not_implemented" ELSE "unexpected_frame"
    [] OTHER -> ""

ControlFrameError(role, ph, t) ==
  IF ph = "settings" THEN (IF t = "settings" THEN "" ELSE "missing_settings")
  ELSE CASE t \in {"headers", "data", "push_promise", "duplicate_push"} -> "wrong_stream"
         [] t = "settings" -> "unexpected_frame"
         [] t = "cancel_push" -> "not_implemented"
         [] t = "goaway" -> IF role = "client" THEN "not_implemented" ELSE "unexpected_frame"
         [] t \in {"max_push_id", "priority"} ->
              IF role = "server" THEN "not_implemented" ELSE "unexpected_frame"

Known(t) == t \in FrameTypes

\* Errors that may be reported as soon as the type of a frame is known.
EarlyErrors(err) == IF err \in {"", "not_implemented"} THEN {} ELSE {err}

\* Is what follows s[1..] nothing but complete unknown frames?
OnlyUnknown(s) == SkipUnknown(s, 1, Len(s)) = Len(s) + 1

----------------------------------------------------------------------------
RECURSIVE RequestNext(_, _, _)

\* In a phase at a frame boundary.
RequestFrame(rc0, role, e) ==
  LET s == rc0.buf
      j == SkipUnknown(s, 1, Len(s))
      rc == [rc0 EXCEPT !.buf = From(s, j)]
      b == rc.buf
      f == FrameAt(b, 1, Len(b))
      err == IF Known(f.t) THEN RequestFrameError(role, rc.ph, f.t) ELSE ""
      ended == rc.ph # "headers" /\ b = <<>> /\ rc.fin
      consumed(ph, rem) ==
        [rc EXCEPT !.buf = From(b, f.n + 1), !.ph = ph, !.rem = rem]
  IN
  CASE ended ->
         IF e.r = "body" /\ e.fin /\ e.d = <<>>
         THEN Yes([rc EXCEPT !.ph = "end"])
         ELSE IF e.r = "finished" /\ ~rc.open THEN Yes([rc EXCEPT !.ph = "done"])
         ELSE No("the message is complete")
    [] ~ended /\ f.r = "incomplete" ->
         IF e.r = "err" /\ e.e \in EarlyErrors(err) THEN MustFail(rc, e, {err})
         ELSE IF rc.fin THEN MustFail(rc, e, {"malformed_frame"})
         ELSE IF e.r = "none" THEN Yes(rc)
         ELSE No("the next frame is incomplete")
    [] f.r = "malformed_frame" ->
         MustFail(rc, e, {"malformed_frame"} \cup EarlyErrors(err))
    [] f.r = "ok" /\ err = "not_implemented" ->
         IF e.r = "err" /\ e.e = "not_implemented"
         THEN Yes(IF f.t = "push_promise" THEN [rc EXCEPT !.ph = "free"]
                  ELSE consumed(rc.ph, 0))
         ELSE No("expected not_implemented")
    [] f.r = "ok" /\ err \notin {"", "not_implemented"} -> MustFail(rc, e, {err})
    [] f.r = "ok" /\ err = "" /\ f.t = "headers" /\ rc.ph = "headers" ->
         IF IntOf(f.v.f[1]) = 0 THEN MustFail(rc, e, {"malformed_frame"})
         ELSE RequestNext(consumed("block", IntOf(f.v.f[1])), role, e)
    [] f.r = "ok" /\ err = "" /\ f.t = "headers" /\ rc.ph = "body" ->
         RequestNext(consumed("trail", IntOf(f.v.f[1])), role, e)
    [] f.r = "ok" /\ err = "" /\ f.t = "data" ->
         LET n == IntOf(f.v.f[1])
             rc1 == consumed("data", n)
         IN IF n > 0 THEN RequestNext(rc1, role, e)
            ELSE IF e.r = "body" /\ e.d = <<>>     \* an empty DATA frame
            THEN IF ~e.fin THEN Yes([rc1 EXCEPT !.ph = "body", !.open = TRUE])
                 ELSE IF rc1.fin /\ OnlyUnknown(rc1.buf)
                 THEN Yes([rc1 EXCEPT !.ph = "end"])
                 ELSE No("end of body too early")
            ELSE RequestNext([rc1 EXCEPT !.ph = "body"], role, e)

RequestBlock(rc, role, e) ==
  LET b == rc.buf
      avail == Min2(rc.rem, Len(b))
      d == HeaderDecode(b, 1, avail, rc.pre)
      used == d.p + d.n
  IN
  CASE d.r = "ok" ->
         IF e.r = "header" /\ <<e.n, e.v>> = d.v /\ e.fin = (used = rc.rem)
         THEN Yes([rc EXCEPT !.buf = From(b, used + 1), !.rem = @ - used,
                             !.pre = TRUE,
                             !.ph = IF used = rc.rem THEN "body" ELSE "block"])
         ELSE No("expected this header")
    [] d.r = "incomplete" /\ Len(b) >= rc.rem -> MustFail(rc, e, BlockErrors)
    [] d.r = "incomplete" /\ Len(b) < rc.rem ->
         IF rc.fin THEN MustFail(rc, e, {"malformed_frame"})
         ELSE IF e.r = "none" THEN Yes(rc)
         ELSE No("the next header is incomplete")
    [] d.r \notin {"ok", "incomplete"} -> MustFail(rc, e, {d.r})

RequestData(rc, role, e) ==
  LET b == rc.buf
      avail == Min2(rc.rem, Len(b))
  IN
  CASE avail = 0 ->
         IF rc.fin THEN MustFail(rc, e, {"malformed_frame"})
         ELSE IF e.r = "none" THEN Yes(rc)
         ELSE No("no body bytes are left")
    [] avail > 0 ->
         IF ~(e.r = "body" /\ e.d # <<>> /\ Len(e.d) <= avail
              /\ e.d = SubSeq(b, 1, Len(e.d)))
         THEN No("expected body bytes")
         ELSE LET n == Len(e.d)
                  rc1 == [rc EXCEPT !.buf = From(b, n + 1),
                            \* Huge stands for any size beyond the trace
                            !.rem = IF @ = Huge THEN @ ELSE @ - n,
                            !.open = TRUE]
                  rc2 == IF rc1.rem = 0 THEN [rc1 EXCEPT !.ph = "body"] ELSE rc1
              IN IF ~e.fin THEN Yes(rc2)
                 ELSE IF rc2.rem = 0 /\ rc2.fin /\ OnlyUnknown(rc2.buf)
                 THEN Yes([rc2 EXCEPT !.ph = "end"])
                 ELSE No("end of body too early")

RequestTrail(rc, role, e) ==
  LET n == Min2(rc.rem, Len(rc.buf))
      rc1 == [rc EXCEPT !.buf = From(@, n + 1), !.rem = @ - n]
  IN IF rc1.rem = 0 THEN RequestNext([rc1 EXCEPT !.ph = "trailed"], role, e)
     ELSE IF rc.fin THEN MustFail(rc1, e, {"malformed_frame"})
     ELSE IF e.r = "none" THEN Yes(rc1)
     ELSE No("the trailing section is incomplete")

RequestNext(rc, role, e) ==
  CASE rc.ph = "closed" ->
         IF e.r \in {"err", "none"} THEN Yes(rc) ELSE No("nothing was requested yet")
    [] rc.ph \in {"headers", "body", "trailed"} -> RequestFrame(rc, role, e)
    [] rc.ph = "block" -> RequestBlock(rc, role, e)
    [] rc.ph = "data" -> RequestData(rc, role, e)
    [] rc.ph = "trail" -> RequestTrail(rc, role, e)
    [] rc.ph = "end" -> IF e.r = "finished" THEN Yes([rc EXCEPT !.ph = "done"])
                        ELSE No("expected finished")
    [] rc.ph = "done" -> IF e.r \in {"none", "err"} THEN Yes(rc)
                         ELSE No("the message was reported as finished")
    [] rc.ph = "failed" -> IF e.r = "err" THEN Yes(rc)
                           ELSE No("an error was reported before")
    [] rc.ph = "free" -> Yes(IF e.r = "finished" THEN [rc EXCEPT !.ph = "done"] ELSE rc)

----------------------------------------------------------------------------
RECURSIVE ControlNext(_, _, _)
ControlNext(rc0, role, e) ==
  CASE rc0.ph = "failed" -> IF e.r = "err" THEN Yes(rc0)
                            ELSE No("an error was reported before")
    [] rc0.ph = "free" -> Yes(rc0)
    [] rc0.ph = "type" ->
         LET t == VarintDecode(rc0.buf, 1, Len(rc0.buf)) IN
         IF t.r # "ok" THEN IF e.r = "none" THEN Yes(rc0) ELSE No("no stream type yet")
         ELSE IF t.v # Wide0
         THEN IF e.r = "err" THEN MustFail(rc0, e, {e.e}) ELSE No("not a control stream")
         ELSE ControlNext([rc0 EXCEPT !.ph = "settings", !.buf = From(@, t.n + 1)], role, e)
    [] rc0.ph \in {"settings", "active"} ->
         LET s == rc0.buf
             j == SkipUnknown(s, 1, Len(s))
             rc == [rc0 EXCEPT !.buf = From(s, j)]
             b == rc.buf
             f == FrameAt(b, 1, Len(b))
             err == IF Known(f.t) THEN ControlFrameError(role, rc.ph, f.t) ELSE ""
             consumed == [rc EXCEPT !.buf = From(b, f.n + 1), !.ph = "active"]
         IN
         CASE f.r = "incomplete" ->
                IF e.r = "err" /\ e.e \in EarlyErrors(err) THEN MustFail(rc, e, {err})
                ELSE IF e.r = "none" THEN Yes(rc)
                ELSE No("the next frame is incomplete")
           [] f.r = "malformed_frame" ->
                MustFail(rc, e, {"malformed_frame"} \cup EarlyErrors(err))
           [] f.r = "ok" /\ err = "" ->          \* the SETTINGS frame
                IF e.r = "settings" /\ e.s = f.v.f THEN Yes(consumed)
                ELSE No("expected these settings")
           [] f.r = "ok" /\ err = "not_implemented" ->
                IF e.r = "err" /\ e.e = err THEN Yes(consumed)
                ELSE No("expected not_implemented")
           [] f.r = "ok" /\ err \notin {"", "not_implemented"} -> MustFail(rc, e, {err})

----------------------------------------------------------------------------
\* A chunk arrives.
Receive(rc, d, fin) == [rc EXCEPT !.buf = @ \o d, !.fin = @ \/ fin]

=============================================================================
