------------------------------ MODULE MC_System ------------------------------
(* A bounded model of a client and a server joined by a network that keeps the
   order within each stream, checked exhaustively: all interleavings of the
   applications' calls, of sending, of delivering (in pieces) and of asking for
   events. It puts the parts that judge the implementation (what may be sent for
   what was submitted, what must be reported for what was received, when a stream
   is closed) together and checks that they imply what users rely on: messages
   arrive intact, complete, on their stream, and streams and handles end.

   The senders emit the chunks that the implementation emits. A simulation of the
   model (-simulate) prints behaviours as scripts for the driver. *)
EXTENDS Connection, Json

CONSTANTS Requests,     \* number of requests
          Headers,      \* headers per message
          Bodies,       \* body buffers per message
          Partial,      \* deliver also single bytes
          Whole,        \* applications submit whole messages at once
          Settings,     \* include the control streams, or else start after them
          Scripts          \* print scripts

Client == 1
Server == 2
Peer(k) == 3 - k
Ids == {ToString(4 * n) : n \in 0..(Requests - 1)}
IdsOf(k) == Ids \cup {OwnControl(IF k = Client THEN "client" ELSE "server")}
Handle(k, id) == IF k = Client THEN "c" \o id ELSE "s" \o id

\* What the applications submit differs by stream and direction.
Num(k, id) == (IF k = Client THEN 10 ELSE 20) + (IF id = "0" THEN 1 ELSE IF id = "4" THEN 2 ELSE 3)
HeaderOf(k, id, n) == IF n = 1 THEN <<<<97>>, <<Num(k, id)>>>> ELSE <<<<58, 98>>, <<Num(k, id), n>>>>
BodyOf(k, id, n) == IF n = 1 THEN <<Num(k, id), 100>> ELSE <<Num(k, id) + 50>>

VARIABLES st,     \* the state of module Connection, for connections 1 and 2
          subs,   \* <<connection, id>> -> body buffers submitted
          sent,   \* <<connection, id>> -> number of chunks emitted
          wire,   \* <<connection, id>> -> bytes and end not yet delivered
          ended,  \* <<connection, id>>: the end was sent
          rdone,  \* <<connection, id>>: reported as finished
          hist
vars == <<st, subs, sent, wire, ended, rdone, hist>>
View == <<st, subs, sent, wire, ended, rdone>>

Log(op) == IF Scripts THEN Append(hist, op) ELSE hist

Conn(k) == st.conns[k]
Open(k, id) == Has(Conn(k).streams, id)
Snd(k, id) == Conn(k).streams[id].snd

Get(f, x, default) == IF x \in DOMAIN f THEN f[x] ELSE default
NoWire == [d |-> <<>>, fin |-> FALSE]

\* The next state after an event that the specification must allow.
Allowed(r) == IF r.ok THEN r.st ELSE Assert(FALSE, r.why)

Fresh == OnConn(OnConn(InitConns, [k |-> Client], "client").st, [k |-> Server], "server").st
SettingsFrame == FrameEncode("settings", DefaultSettings)

\* The control streams were sent, delivered and reported.
Started ==
  [Fresh EXCEPT !.conns = [k \in {Client, Server} |->
     [@[k] EXCEPT !.out = <<0>> \o SettingsFrame, !.ctl = [@ EXCEPT !.ph = "active"]]]]

Init ==
  /\ st = IF Settings THEN Fresh ELSE Started
  /\ sent = IF Settings THEN EmptyMap ELSE (<<Client, "2">> :> 2) @@ (<<Server, "3">> :> 2)
  /\ subs = EmptyMap /\ wire = EmptyMap /\ ended = {} /\ rdone = {} /\ hist = <<>>

----------------------------------------------------------------------------
(* The applications *)

Request ==
  /\ Conn(Client).next < Requests
  /\ LET id == ToString(4 * Conn(Client).next) IN
     /\ st' = Allowed(OnRequest(st, [k |-> Client, h |-> Handle(Client, id), id |-> id,
                                     r |-> "ok"]))
     /\ hist' = Log(<<"request", id>>)
  /\ UNCHANGED <<subs, sent, wire, ended, rdone>>

Respond(id) ==
  /\ Open(Server, id)
  /\ ~Has(st.hs, Handle(Server, id))
  /\ st' = Allowed(OnResponse(st, [k |-> Server, h |-> Handle(Server, id), id |-> id,
                                   hid |-> id, r |-> "ok"]))
  /\ hist' = Log(<<"response", id>>)
  /\ UNCHANGED <<subs, sent, wire, ended, rdone>>

HasHandle(k, id) == Has(st.hs, Handle(k, id)) /\ st.hs[Handle(k, id)] = <<k, id>>

Call(k, id, e, op) ==
  /\ HasHandle(k, id)
  /\ st' = Allowed(OnSubmit(st, e @@ [h |-> Handle(k, id), r |-> "ok"]))
  /\ hist' = Log(op)
  /\ UNCHANGED <<sent, wire, ended, rdone>>

SubmitPiece(k, id) ==
  \/ /\ HasHandle(k, id) /\ ~Snd(k, id).started
     /\ LET n == Len(Snd(k, id).hs) + 1
            h == HeaderOf(k, id, n)
        IN /\ n <= Headers
           /\ Call(k, id, [o |-> "header", n |-> h[1], v |-> h[2]], <<"header", k, id, h>>)
     /\ UNCHANGED subs
  \/ /\ HasHandle(k, id) /\ ~Snd(k, id).started /\ Snd(k, id).hs # <<>>
     /\ Call(k, id, [o |-> "start"], <<"start", k, id>>)
     /\ UNCHANGED subs
  \/ /\ HasHandle(k, id) /\ ~Snd(k, id).ended
     /\ LET n == Len(Get(subs, <<k, id>>, <<>>)) + 1
            b == BodyOf(k, id, n)
        IN /\ n <= Bodies
           /\ Call(k, id, [o |-> "body", d |-> b], <<"body", k, id, b>>)
           /\ subs' = Put(subs, <<k, id>>, Append(Get(subs, <<k, id>>, <<>>), b))
  \/ /\ HasHandle(k, id) /\ ~Snd(k, id).ended
     /\ Call(k, id, [o |-> "fin"], <<"fin", k, id>>)
     /\ UNCHANGED subs

\* All of a message: headers, start, body buffers, end.
MessageOf(k, id) ==
  [n \in 1..Headers |-> LET h == HeaderOf(k, id, n) IN
     [e |-> [o |-> "header", n |-> h[1], v |-> h[2]], op |-> <<"header", k, id, h>>]]
  \o <<[e |-> [o |-> "start"], op |-> <<"start", k, id>>]>>
  \o [n \in 1..Bodies |-> LET b == BodyOf(k, id, n) IN
       [e |-> [o |-> "body", d |-> b], op |-> <<"body", k, id, b>>]]
  \o <<[e |-> [o |-> "fin"], op |-> <<"fin", k, id>>]>>

RECURSIVE CallAll(_, _, _)
CallAll(s, h, m) ==
  IF m = <<>> THEN s
  ELSE CallAll(Allowed(OnSubmit(s, Head(m).e @@ [h |-> h, r |-> "ok"])), h, Tail(m))

SubmitWhole(k, id) ==
  /\ HasHandle(k, id) /\ ~Snd(k, id).started
  /\ LET m == MessageOf(k, id) IN
     /\ st' = CallAll(st, Handle(k, id), m)
     /\ subs' = Put(subs, <<k, id>>, [n \in 1..Bodies |-> BodyOf(k, id, n)])
     /\ hist' = IF Scripts THEN hist \o [n \in DOMAIN m |-> m[n].op] ELSE hist
  /\ UNCHANGED <<sent, wire, ended, rdone>>

Submit(k, id) == IF Whole THEN SubmitWhole(k, id) ELSE SubmitPiece(k, id)

----------------------------------------------------------------------------
(* Sending *)

LiteralLineOf(h) == LiteralEncode(h[1], 3, 32) \o LiteralEncode(h[2], 7, 0)

HeaderChunks(hs) ==
  LET lines == [n \in DOMAIN hs |-> LiteralLineOf(hs[n])]
      chunks == [n \in DOMAIN hs |-> IF n = 1 THEN QpackPrefix \o lines[1] ELSE lines[n]]
      size == Len(FlattenSeq(chunks))
  IN <<FrameEncode("headers", <<WideOf(size)>>)>> \o chunks

BodyChunks(bodies) ==
  FlattenSeq([n \in DOMAIN bodies |->
                <<FrameEncode("data", <<WideOf(Len(bodies[n]))>>), bodies[n]>>])

Chunks(k, id) ==
  IF id \in Ids THEN HeaderChunks(Snd(k, id).hs) \o BodyChunks(Get(subs, <<k, id>>, <<>>))
  ELSE <<<<0>>, SettingsFrame>>

Sent(k, id) == Get(sent, <<k, id>>, 0)

CanSend(k, id) ==
  IF id \notin Ids THEN Sent(k, id) < 2
  ELSE /\ ControlDone(Conn(k).out)
       /\ Open(k, id)
       /\ ~Idle(Snd(k, id))

Send(k, id) ==
  /\ id \in IdsOf(k)
  /\ CanSend(k, id)
  /\ LET c == Chunks(k, id)
         n == Sent(k, id) + 1
         d == IF n <= Len(c) THEN c[n] ELSE <<>>
         f == id \in Ids /\ Snd(k, id).ended /\ n >= Len(c)
         w == Get(wire, <<k, id>>, NoWire)
     IN /\ st' = Allowed(OnSend(st, [k |-> k, r |-> "ok", id |-> id, fin |-> f, d |-> d]))
        /\ sent' = Put(sent, <<k, id>>, n)
        /\ wire' = Put(wire, <<k, id>>, [d |-> w.d \o d, fin |-> f])
        /\ ended' = IF f THEN ended \cup {<<k, id>>} ELSE ended
        /\ hist' = Log(<<"send", k>>)
  /\ UNCHANGED <<subs, rdone>>

----------------------------------------------------------------------------
(* Delivering *)

Slot(k, id) == ToString(k) \o "/" \o id

\* src is -1: the contents are compared below, not by module Connection.
Arrival(k, id, d, f) ==
  [k |-> k, src |-> -1, id |-> id, m |-> IF id \in Ids THEN 0 ELSE IF id = "2" THEN 2 ELSE 3,
   fin |-> f, d |-> d, g |-> Slot(k, id)]

Deliver(k, id) ==
  /\ <<k, id>> \in DOMAIN wire
  /\ LET w == wire[<<k, id>>]
         p == Peer(k)
     IN \E n \in (IF Partial THEN {1} ELSE {}) \cup {Len(w.d)} :
          LET f == w.fin /\ n = Len(w.d)
              a == Arrival(p, id, SubSeq(w.d, 1, n), f)
              ok == OnRecv(st, a @@ [r |-> "ok"])
          IN /\ n <= Len(w.d) /\ (n = 0 => f)
             /\ st' = IF ok.ok THEN ok.st ELSE Allowed(OnRecv(st, a @@ [r |-> "stream_closed"]))
             /\ wire' = IF n = Len(w.d) THEN Del(wire, <<k, id>>)
                        ELSE [wire EXCEPT ![<<k, id>>].d = From(@, n + 1)]
             /\ hist' = Log(<<"deliver", k, id, IF n = Len(w.d) THEN -1 ELSE n>>)
  /\ UNCHANGED <<subs, sent, ended, rdone>>

----------------------------------------------------------------------------
(* Events *)

AllHeaders == {HeaderOf(k, id, n) : k \in {Client, Server}, id \in Ids, n \in 1..Headers}

Outcomes(k, id) ==
  LET buf == IF Open(k, id) THEN Conn(k).streams[id].rcv.buf ELSE <<>> IN
  {[r |-> "none"], [r |-> "finished"], [r |-> "settings", s |-> DefaultSettings]}
  \cup {[r |-> "err", e |-> x] : x \in {"malformed_frame", "wrong_stream", "unexpected_frame",
                                       "closed_critical_stream"}}
  \cup {[r |-> "header", n |-> h[1], v |-> h[2], fin |-> f] : h \in AllHeaders, f \in BOOLEAN}
  \cup {[r |-> "body", d |-> SubSeq(buf, i, Min2(i + l, Len(buf))), fin |-> f] :
          i \in DOMAIN buf, l \in 0..1, f \in BOOLEAN}
  \cup {[r |-> "body", d |-> <<>>, fin |-> TRUE]}

Ask(k, id, e) == OnNext(st, e @@ [k |-> k, g |-> Slot(k, id), id |-> id])

Report(k, id) ==
  /\ Has(st.gens, Slot(k, id)) /\ st.gens[Slot(k, id)][2] \notin {"closed", "over"}
  /\ \E e \in Outcomes(k, id) :
       LET r == Ask(k, id, e) IN
       /\ r.ok
       /\ Scripts => e.r # "none"
       /\ st' = r.st
       /\ rdone' = IF e.r = "finished" THEN rdone \cup {<<k, id>>} ELSE rdone
  /\ hist' = Log(<<"next", k, id>>)
  /\ UNCHANGED <<subs, sent, wire, ended>>

----------------------------------------------------------------------------

AnySubmit == \E k \in {Client, Server}, id \in Ids : Submit(k, id)
AnySend == \E k \in {Client, Server}, id \in Ids \cup {"2", "3"} : Send(k, id)
AnyDeliver == \E k \in {Client, Server}, id \in Ids \cup {"2", "3"} : Deliver(k, id)
AnyReport == \E k \in {Client, Server}, id \in Ids \cup {"2", "3"} : Report(k, id)

Next == \/ Request
        \/ \E id \in Ids : Respond(id)
        \/ AnySubmit
        \/ AnySend
        \/ AnyDeliver
        \/ AnyReport

Fair == /\ \A k \in {Client, Server}, id \in Ids \cup {"2", "3"} :
             WF_vars(Send(k, id)) /\ WF_vars(Deliver(k, id)) /\ WF_vars(Report(k, id))
Spec == Init /\ [][Next]_vars /\ Fair

----------------------------------------------------------------------------
(* What is checked *)

LogOf(k, id) == IF Has(Conn(k).log, id) THEN Conn(k).log[id] ELSE NoLog
ReportOf(k, id) == IF Has(Conn(k).rlog, id) THEN Conn(k).rlog[id] ELSE NoReport

\* C17, C18: what is reported is a prefix of what was submitted, and all of it
\* once it is reported as finished.
Intact ==
  \A k \in {Client, Server}, id \in Ids :
    LET l == LogOf(Peer(k), id)
        r == ReportOf(k, id)
    IN /\ IsPrefixOf(r.hs, l.hs) /\ IsPrefixOf(r.body, l.body)
       /\ r.done => l.ended /\ r.hs = l.hs /\ r.body = l.body

\* C12 to C15: a correct peer never causes an error.
NoErrors ==
  \A k \in {Client, Server} :
    /\ Conn(k).ctl.ph \notin {"failed", "free"}
    /\ \A id \in DOMAIN Conn(k).streams : Conn(k).streams[id].rcv.ph \notin {"failed", "free"}

\* C20: a stream is known exactly until both directions are done.
Streams ==
  \A id \in Ids :
    /\ Open(Client, id) <=> /\ Has(Conn(Client).log, id)
                            /\ ~{<<Client, id>>} \subseteq (ended \cap rdone)
    /\ Open(Server, id) <=> /\ Has(st.gens, Slot(Server, id))
                            /\ ~{<<Server, id>>} \subseteq (ended \cap rdone)

\* C19: a valid handle names a stream that is known, and its own.
Handles ==
  \A h \in DOMAIN st.hs :
    st.hs[h] # <<>> => /\ Open(st.hs[h][1], st.hs[h][2])
                       /\ h = Handle(st.hs[h][1], st.hs[h][2])

\* C16: nothing else is sent before the settings.
SettingsFirst ==
  \A k \in {Client, Server}, id \in Ids : Sent(k, id) > 0 => ControlDone(Conn(k).out)

\* There is always an answer to a request for an event.
Receptive ==
  \A k \in {Client, Server}, id \in Ids \cup {"2", "3"} :
    Has(st.gens, Slot(k, id)) /\ st.gens[Slot(k, id)][2] \notin {"closed", "over"} =>
      \E e \in Outcomes(k, id) : Ask(k, id, e).ok

\* C17: when everything was sent, delivered and reported, nothing is missing.
Silent(k, id) ==
  Has(st.gens, Slot(k, id)) /\ Open(k, id) =>
     \E r \in {Ask(k, id, [r |-> "none"])} : r.ok
Quiescent ==
  /\ DOMAIN wire = {}
  /\ \A k \in {Client, Server} : \A id \in IdsOf(k) : ~CanSend(k, id)
  /\ \A k \in {Client, Server}, id \in Ids : Silent(k, id)

Complete ==
  Quiescent =>
    \A k \in {Client, Server}, id \in Ids :
      Sent(k, id) > 0 =>
        LET l == LogOf(k, id)
            r == ReportOf(Peer(k), id)
        IN r.hs = l.hs /\ r.body = l.body /\ (r.done = l.ended)

\* Every message that was started and ended arrives.
Arrives ==
  \A k \in {Client, Server}, id \in Ids :
    (Sent(k, id) > 0 /\ LogOf(k, id).ended) ~> <<Peer(k), id>> \in rdone

\* Complete behaviours, for the implementation to be run on.
Show == (Scripts /\ ~ENABLED Next) => PrintT("SCRIPT " \o ToJson([ops |-> hist]))

=============================================================================
