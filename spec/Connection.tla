----------------------------- MODULE Connection -----------------------------
(* Endpoints, their streams, the application's handles and event generators.

   State (one record):
     conns  connection -> [role, out, ctl, streams, next, peer, log, rlog]
              out      bytes emitted on the own control stream
              ctl      receiver of the peer's control stream
              streams  id -> [snd, rcv] of the streams that are known
              next     number of requests made so far (client)
              peer     the connection whose output is delivered here; 0 if none
                       so far, -1 if bytes were injected
              log      id -> what was submitted on the stream [hs, body, ended]
              rlog     id -> what was reported on it [hs, body, done]
              reused   ids whose stream was closed and opened once more by
                       further data (server)
     hs     handle -> <<connection, id>>, <<>> if it is invalid
     gens   generator -> <<connection, id>>

   Stream ids are decimal strings. Each operator below takes the state and an
   event recorded from the implementation and yields [ok, st, why]. *)
EXTENDS Receiver, Sender

EmptyMap == <<>>          \* a function with empty domain
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Has(f, k) == k \in DOMAIN f

InitConns == [conns |-> EmptyMap, hs |-> EmptyMap, gens |-> EmptyMap]

OwnControl(role) == IF role = "client" THEN "2" ELSE "3"
PeerControl(role) == IF role = "client" THEN "3" ELSE "2"

NewConn(role) ==
  [role |-> role, out |-> <<>>, ctl |-> Receiver("type"), streams |-> EmptyMap,
   next |-> 0, peer |-> 0, log |-> EmptyMap, rlog |-> EmptyMap, reused |-> {}]

NewStream(role) ==
  [snd |-> Sender, rcv |-> Receiver(IF role = "client" THEN "closed" ELSE "headers")]

NoLog == [hs |-> <<>>, body |-> <<>>, ended |-> FALSE]

\* Handles for which `dead' holds become invalid.
Invalidate(hs, dead(_)) ==
  [h \in DOMAIN hs |-> IF hs[h] # <<>> /\ dead(hs[h]) THEN <<>> ELSE hs[h]]

Refused(r) == r \notin {"ok", "exception", "unknown_error"}

SetStream(st, k, id, stream) ==
  [st EXCEPT !.conns[k].streams = Put(@, id, stream)]

\* The stream is closed once both directions are finished. Its generators have
\* nothing more to report, even if the id is used again.
CloseIfDone(st, k, id) ==
  LET s == st.conns[k].streams[id] IN
  IF s.snd.fin /\ s.rcv.ph = "done"
  THEN [st EXCEPT !.conns[k].streams = Del(@, id),
                  !.hs = Invalidate(@, LAMBDA x : x = <<k, id>>),
                  !.gens = [g \in DOMAIN @ |-> IF @[g] = <<k, id>> THEN <<k, "closed">>
                                               ELSE @[g]]]
  ELSE st

----------------------------------------------------------------------------
(* Connections *)

OnConn(st, e, role) ==
  Yes([st EXCEPT !.conns = Put(@, e.k, NewConn(role)),
                 !.hs = Invalidate(@, LAMBDA x : x[1] = e.k)])

OnDelete(st, e) ==
  Yes([st EXCEPT !.conns = Del(@, e.k),
                 !.hs = Invalidate(@, LAMBDA x : x[1] = e.k)])

\* Connection e.d becomes what e.k was; handles stay with their streams.
OnMove(st, e) ==
  LET moved == Put(Del(st.conns, e.k), e.d, st.conns[e.k])
      valid == Invalidate(st.hs, LAMBDA x : x[1] = e.d)
  IN Yes([st EXCEPT
            !.conns = [k \in DOMAIN moved |->
                         [moved[k] EXCEPT !.peer = IF @ = e.k THEN e.d ELSE @]],
            !.hs = [h \in DOMAIN valid |->
                      IF valid[h] # <<>> /\ valid[h][1] = e.k
                      THEN <<e.d, valid[h][2]>> ELSE valid[h]]])

----------------------------------------------------------------------------
(* Handles *)

\* A new handle in slot h replaces any other one for the same stream.
GiveHandle(st, h, k, id) ==
  [st EXCEPT !.hs = Put(Invalidate(@, LAMBDA x : x = <<k, id>>), h, <<k, id>>)]

OnRequest(st, e) ==
  LET c == st.conns[e.k]
      id == ToString(4 * c.next)
  IN IF e.r = "ok" /\ e.id = id
     THEN Yes(GiveHandle(
            [st EXCEPT !.conns[e.k].next = @ + 1,
                       !.conns[e.k].streams = Put(@, id, NewStream(c.role)),
                       !.conns[e.k].log = Put(@, id, NoLog)], e.h, e.k, id))
     ELSE No("requests get the ids 0, 4, 8, ...")

OnResponse(st, e) ==
  IF Has(st.conns[e.k].streams, e.id)
  THEN IF e.r = "ok" /\ e.hid = e.id
       THEN LET st1 == GiveHandle(st, e.h, e.k, e.id) IN
            Yes(IF Has(st1.conns[e.k].log, e.id) THEN st1
                ELSE [st1 EXCEPT !.conns[e.k].log = Put(@, e.id, NoLog)])
       ELSE No("the stream is known")
  ELSE IF e.r = "stream_closed" THEN Yes(st) ELSE No("the stream is closed")

OnHandleNew(st, e) == Yes([st EXCEPT !.hs = Put(@, e.h, <<>>)])
OnHandleDrop(st, e) == Yes([st EXCEPT !.hs = Del(@, e.h)])
OnHandleMove(st, e) ==
  IF e.h = e.d THEN Yes(st)
  ELSE Yes([st EXCEPT !.hs = Put(Put(@, e.d, st.hs[e.h]), e.h, <<>>)])
OnHandleId(st, e) ==
  IF st.hs[e.h] = <<>> \/ st.hs[e.h][2] = e.id THEN Yes(st) ELSE No("wrong id")

\* header, body, start and fin
OnSubmit(st, e) ==
  IF st.hs[e.h] = <<>>
  THEN IF e.r = "invalid_handle" THEN Yes(st) ELSE No("the handle is invalid")
  ELSE
  LET k == st.hs[e.h][1]
      id == st.hs[e.h][2]
      s == st.conns[k].streams[id].snd
      set(t) == [st EXCEPT !.conns[k].streams[id].snd = t,
                           !.conns[k].log[id] =
                             [hs |-> t.hs, body |-> t.body, ended |-> t.ended]]
      refused == IF Refused(e.r) /\ e.r # "invalid_handle" THEN Yes(st)
                 ELSE No("the call is out of order")
      accepted(t) == IF e.r = "ok" THEN Yes(set(t)) ELSE No("the call is in order")
  IN
  CASE e.o = "header" ->
         IF s.started THEN refused
         ELSE IF HasUpper(e.n)
         THEN IF e.r = "malformed_header" THEN Yes(st) ELSE No("uppercase name")
         ELSE accepted([s EXCEPT !.hs = Append(@, <<e.n, e.v>>)])
    [] e.o = "start" ->
         IF s.started \/ s.hs = <<>> THEN refused
         ELSE accepted([s EXCEPT !.started = TRUE])
    [] e.o = "body" ->
         IF s.ended THEN refused ELSE accepted([s EXCEPT !.body = @ \o e.d])
    [] e.o = "fin" ->
         IF s.ended /\ s.fin THEN refused
         ELSE IF s.ended THEN IF e.r = "ok" THEN Yes(st) ELSE refused
         ELSE accepted([s EXCEPT !.ended = TRUE])

----------------------------------------------------------------------------
(* Sending *)

OnSend(st, e) ==
  LET c == st.conns[e.k] IN
  IF e.r = "idle"
  THEN IF ControlDone(c.out)
          /\ \A id \in DOMAIN c.streams : Idle(c.streams[id].snd)
       THEN Yes(st) ELSE No("there is something to send")
  ELSE IF e.r # "ok" THEN No("sending cannot fail")
  ELSE IF e.id = OwnControl(c.role)
  THEN LET out == c.out \o e.d IN
       IF ~e.fin /\ ControlGood(out) /\ (ControlDone(c.out) => e.d = <<>>)
       THEN Yes([st EXCEPT !.conns[e.k].out = out])
       ELSE No("not the control stream of this endpoint")
  ELSE IF ~ControlDone(c.out) THEN No("the control stream comes first")
  ELSE IF ~Has(c.streams, e.id) THEN No("data for a stream that is not known")
  ELSE
  LET s == c.streams[e.id]
      r == Emit(s.snd, e.d, e.fin)
      rcv == IF s.rcv.ph = "closed" THEN [s.rcv EXCEPT !.ph = "headers"] ELSE s.rcv
  IN IF r.ok
     THEN Yes(CloseIfDone(SetStream(st, e.k, e.id, [snd |-> r.st, rcv |-> rcv]),
                          e.k, e.id))
     ELSE No("not what was submitted on this stream")

----------------------------------------------------------------------------
(* Receiving *)

Gen(st, e) == IF e.r = "ok" THEN [st EXCEPT !.gens = Put(@, e.g, <<e.k, e.id>>)]
              ELSE [st EXCEPT !.gens = Del(@, e.g)]

OnRecv(st0, e) ==
  LET c == st0.conns[e.k]
      st == [Gen(st0, e) EXCEPT
               !.conns[e.k].peer =
                 IF @ \in {0, e.src} /\ e.src >= 0 THEN e.src ELSE -1]
  IN
  CASE e.id = PeerControl(c.role) ->
         IF e.fin
         THEN IF e.r = "closed_critical_stream" \/ (Refused(e.r) /\ c.ctl.ph \in {"failed", "free"})
              THEN Yes([st EXCEPT !.conns[e.k].ctl.ph = "free"])
              ELSE No("the control stream was closed")
         ELSE IF e.r = "ok" THEN Yes([st EXCEPT !.conns[e.k].ctl = Receive(@, e.d, FALSE)])
         ELSE IF Refused(e.r) /\ c.ctl.ph \in {"failed", "free"} THEN Yes(st)
         ELSE No("data on the control stream was refused")
    [] e.id # PeerControl(c.role) /\ e.m \in {2, 3} ->
         IF e.r = "ok" THEN Yes([st EXCEPT !.gens[e.g] = <<e.k, "ignored">>])
         ELSE No("unidirectional streams are ignored")
    [] e.m \in {0, 1} /\ Has(c.streams, e.id) ->
         LET rcv == c.streams[e.id].rcv IN
         IF rcv.fin
         THEN IF Refused(e.r) THEN Yes(st) ELSE No("data after the end of the stream")
         ELSE IF e.r = "ok"
         THEN Yes([st EXCEPT !.conns[e.k].streams[e.id].rcv = Receive(@, e.d, e.fin)])
         ELSE IF Refused(e.r) /\ rcv.ph \in {"failed", "free"} THEN Yes(st)
         ELSE No("data was refused")
    [] e.m \in {0, 1} /\ ~Has(c.streams, e.id) ->
         IF c.role = "client"
         THEN IF Refused(e.r) THEN Yes(st) ELSE No("data for an unknown stream")
         ELSE IF e.r = "ok"
         THEN LET s == NewStream("server")
                  st1 == SetStream(st, e.k, e.id,
                                   [s EXCEPT !.rcv = Receive(@, e.d, e.fin)])
              IN Yes([st1 EXCEPT !.conns[e.k].rlog = Del(@, e.id),
                                 !.conns[e.k].log = Del(@, e.id),
                                 !.conns[e.k].reused =
                                   IF Has(c.log, e.id) THEN @ \cup {e.id} ELSE @])
         \* clients open their streams with even ids, and only once
         ELSE IF Refused(e.r) /\ (e.m = 1 \/ Has(c.rlog, e.id)) THEN Yes(st)
         ELSE No("a new request was refused")

NoReport == [hs |-> <<>>, body |-> <<>>, done |-> FALSE]

\* What was reported is a prefix of what the peer's application submitted, and
\* all of it when the message is finished.
Faithful(st, k, id, rep) ==
  LET p == st.conns[k].peer IN
  IF p <= 0 \/ ~Has(st.conns, p) THEN TRUE
  ELSE IF id \in st.conns[p].reused \cup st.conns[k].reused THEN TRUE
  ELSE LET log == IF Has(st.conns[p].log, id) THEN st.conns[p].log[id] ELSE NoLog IN
       /\ IsPrefixOf(rep.hs, log.hs)
       /\ IsPrefixOf(rep.body, log.body)
       /\ rep.done => log.ended /\ rep.hs = log.hs /\ rep.body = log.body

Reported(rep, e) ==
  CASE e.r = "header" -> [rep EXCEPT !.hs = Append(@, <<e.n, e.v>>)]
    [] e.r = "body" -> [rep EXCEPT !.body = @ \o e.d]
    [] e.r = "finished" -> [rep EXCEPT !.done = TRUE]
    [] OTHER -> rep

OnNext(st, e) ==
  IF ~Has(st.gens, e.g) THEN No("no such generator")
  ELSE
  LET k == e.k
      c == st.conns[k]
      id == st.gens[e.g][2]
  IN
  IF e.r = "bogus" THEN No("not an event")
  ELSE IF id = "ignored"
  THEN IF e.r = "none" THEN Yes(st) ELSE No("unidirectional streams are ignored")
  ELSE IF id = "over"
  THEN IF e.r = "none" THEN Yes(st) ELSE No("something after the end of the message")
  ELSE IF id = PeerControl(c.role)
  THEN LET r == ControlNext(c.ctl, c.role, e) IN
       IF r.ok THEN Yes([st EXCEPT !.conns[k].ctl = r.st]) ELSE r
  ELSE IF ~Has(c.streams, id)
  THEN IF e.r \in {"none", "err"} THEN Yes(st) ELSE No("an event without a stream")
  ELSE
  LET r == RequestNext(c.streams[id].rcv, c.role, e) IN
  IF ~r.ok THEN r
  ELSE IF e.r \in {"header", "body", "finished"} /\ e.id # id
  THEN No("an event of another stream")
  ELSE
  LET rep == Reported(IF Has(c.rlog, id) THEN c.rlog[id] ELSE NoReport, e)
      st1 == [st EXCEPT !.conns[k].streams[id].rcv = r.st,
                        !.conns[k].rlog = Put(@, id, rep),
                        !.gens[e.g] = IF e.r = "finished" THEN <<k, "over">> ELSE @]
  IN IF Faithful(st, k, id, rep) THEN Yes(CloseIfDone(st1, k, id))
     ELSE No("not what the peer submitted")

OnQuicError(st, e) ==
  IF e.r # "exception" THEN Yes(st) ELSE No("an exception")

=============================================================================
