------------------------------- MODULE Sender -------------------------------
(* What an endpoint may send on its streams: the bytes it emits must spell, frame
   by frame, what the application submitted.

   A request sender:
     hs, body   headers and body bytes submitted so far
     started, ended
     ph, out, rem  reading of the output: phase ("headers", "block", "body",
                "data"), bytes emitted but not yet interpreted, bytes left of the
                block or payload
     sent       body bytes emitted
     fin        was the end of the stream emitted?  *)
EXTENDS Frame, Qpack

Sender == [hs |-> <<>>, body |-> <<>>, started |-> FALSE, ended |-> FALSE,
           ph |-> "headers", out |-> <<>>, rem |-> 0, sent |-> 0, fin |-> FALSE]

BadOutput(s) == [s EXCEPT !.ph = "bad"]

RECURSIVE ReadOutput(_)
\* Interprets the output as far as possible; phase "bad" if it is wrong.
ReadOutput(s) ==
  CASE s.ph \in {"headers", "body"} ->
         LET f == FrameAt(s.out, 1, Len(s.out)) IN
         IF f.r = "incomplete"
         THEN IF f.t \in {"none", IF s.ph = "headers" THEN "headers" ELSE "data"}
              THEN s ELSE BadOutput(s)
         ELSE IF f.r = "ok" /\ f.t = (IF s.ph = "headers" THEN "headers" ELSE "data")
         THEN ReadOutput([s EXCEPT !.out = From(@, f.n + 1), !.rem = IntOf(f.v.f[1]),
                            !.ph = IF s.ph = "headers" THEN "block" ELSE "data"])
         ELSE BadOutput(s)
    [] s.ph = "block" ->
         IF Len(s.out) < s.rem THEN s
         ELSE LET l == LinesFrom(s.out, 3, s.rem, <<>>) IN
              IF s.rem >= 2 /\ SubSeq(s.out, 1, 2) = QpackPrefix
                 /\ l.r = "end" /\ l.hs = s.hs
              THEN ReadOutput([s EXCEPT !.out = From(@, s.rem + 1), !.rem = 0,
                                        !.ph = "body"])
              ELSE BadOutput(s)
    [] s.ph = "data" ->
         LET n == Min2(s.rem, Len(s.out)) IN
         IF s.sent + n > Len(s.body)
            \/ SubSeq(s.out, 1, n) # SubSeq(s.body, s.sent + 1, s.sent + n)
         THEN BadOutput(s)
         ELSE LET t == [s EXCEPT !.out = From(@, n + 1), !.rem = @ - n,
                                 !.sent = @ + n]
              IN IF t.rem > 0 THEN t ELSE ReadOutput([t EXCEPT !.ph = "body"])
    [] s.ph = "bad" -> s

\* Everything submitted is on the wire, and nothing is half sent.
AllSent(s) == s.ph = "body" /\ s.out = <<>> /\ s.sent = Len(s.body)

\* Nothing may be sent (any more): the sender is idle or finished.
Idle(s) == ~s.started \/ (AllSent(s) /\ (s.ended => s.fin))

\* Emits a chunk: [ok, st].
Emit(s, d, fin) ==
  IF ~s.started \/ s.fin THEN [ok |-> FALSE, st |-> s]
  ELSE LET t == ReadOutput([s EXCEPT !.out = @ \o d, !.fin = fin]) IN
       [ok |-> t.ph # "bad" /\ (fin => s.ended /\ AllSent(t)), st |-> t]

----------------------------------------------------------------------------
(* The control stream: its type, then one SETTINGS frame with the local
   settings. The sender is the sequence of bytes emitted. *)

ControlDone(c) ==
  Len(c) > 1 /\ c[1] = 0
  /\ LET f == FrameAt(c, 2, Len(c)) IN
     f.r = "ok" /\ f.v = Frame("settings", DefaultSettings) /\ f.n = Len(c) - 1

\* May the emitted bytes still become a correct control stream?
ControlGood(c) ==
  \/ c = <<>>
  \/ c[1] = 0 /\ LET f == FrameAt(c, 2, Len(c)) IN
                 f.r = "incomplete" /\ f.t \in {"none", "settings"}
  \/ ControlDone(c)

=============================================================================
