-------------------------------- MODULE MC_Quic --------------------------------
(* A bounded model of the QUIC client's streams between a user who adds data, a
   transport library that limits, cuts, loses and repeats, and a peer. It joins the
   part that judges what the implementation hands to the transport (module Quic)
   with a network and checks that it implies what users rely on: the peer gets
   exactly the bytes that were added, in order, and the end where it was asked for;
   what the transport may have to send again is kept, and nothing longer than that.

   A simulation of the model (-simulate) prints behaviours as scripts for the
   driver. *)
EXTENDS Quic, Json

CONSTANTS Streams,      \* number of streams
          Adds,         \* chunks per stream
          Window,       \* packets in flight
          Losses,       \* packets that may be lost
          Most,         \* bytes per packet
          Scripts       \* print scripts

Ids == 0..(Streams - 1)
Name(i) == ToString(4 * i)
Chunk(i, n) == [k \in 1..(IF n = 1 THEN 2 ELSE 1) |-> 16 * (i + 1) + 4 * n + k]

VARIABLES st,       \* the state of module Quic
          added,    \* stream -> bytes that were added
          adds,     \* stream -> number of chunks added
          asked,    \* stream -> its end was asked for
          limit,    \* streams that may be opened
          opened,   \* streams that were
          credit,   \* stream -> bytes that the peer takes
          taken,    \* stream -> bytes and end that the transport took
          acked,    \* stream -> bytes of which the client knows
          net,      \* segments in flight: [i, off, d, fin]
          lost,     \* segments that must be sent again
          got,      \* stream -> set of <<offset, byte>> at the peer
          end,      \* stream -> the length that the peer knows of, or -1
          losses, hist
vars == <<st, added, adds, asked, limit, opened, credit, taken, acked, net, lost, got, end, losses, hist>>
View == <<st, added, adds, asked, limit, opened, credit, taken, acked, net, lost, got, end, losses>>

Log(op) == IF Scripts THEN Append(hist, op) ELSE hist
Allowed(r) == IF r.ok THEN r.st ELSE Assert(FALSE, r.why)

Total == LET f[n \in 0..Adds] == IF n = 0 THEN 0 ELSE Len(Chunk(0, n)) + f[n - 1] IN f[Adds]

Here == [host |-> <<>>, local |-> <<1>>, peer |-> <<2>>, params |-> <<>>]
Connected == [QStart(Here, Wide0) EXCEPT !.ctx = "none", !.completed = TRUE]

Init ==
  /\ st = Connected
  /\ added = [i \in Ids |-> <<>>] /\ adds = [i \in Ids |-> 0] /\ asked = [i \in Ids |-> FALSE]
  /\ limit = 0 /\ opened = 0 /\ credit = [i \in Ids |-> 0]
  /\ taken = [i \in Ids |-> [n |-> 0, fin |-> FALSE]] /\ acked = [i \in Ids |-> 0]
  /\ net = {} /\ lost = {} /\ got = [i \in Ids |-> {}] /\ end = [i \in Ids |-> -1]
  /\ losses = Losses /\ hist = <<>>

----------------------------------------------------------------------------
(* The user *)

Give(i, d, f) ==
  /\ st' = Allowed(OnAdd(st, [id |-> Name(i), d |-> d, fin |-> f, r |-> "ok"]))
  /\ added' = [added EXCEPT ![i] = @ \o d]
  /\ adds' = [adds EXCEPT ![i] = IF d = <<>> THEN @ ELSE @ + 1]
  /\ asked' = [asked EXCEPT ![i] = f]
  /\ hist' = Log(<<"add", Name(i), f, d>>)
  /\ UNCHANGED <<limit, opened, credit, taken, acked, net, lost, got, end, losses>>

Add(i) ==
  /\ st.ctx = "none" /\ ~asked[i]
  /\ i > 0 => KnownStream(st, Name(i - 1))
  /\ \/ adds[i] < Adds /\ \E f \in BOOLEAN : Give(i, Chunk(i, adds[i] + 1), f)
     \/ Give(i, <<>>, TRUE)

----------------------------------------------------------------------------
(* Sending: one call, step by step. The answers follow from the transport's state. *)

Event == [ts |-> Nano(Wide0), local |-> <<1>>, remote |-> <<2>>]
InCall == st.ctx = "send"
Packet(x) == <<x>>

Call ==
  /\ st.ctx = "none"
  /\ Scripts => (lost # {} \/ \E x \in DOMAIN st.streams : Work(st.streams[x]))
  /\ st' = Begin(st, "send")
  /\ hist' = Log(<<"send">>)
  /\ UNCHANGED <<added, adds, asked, limit, opened, credit, taken, acked, net, lost, got, end, losses>>

Congested == Cardinality(net) >= Window

\* The transport sends again what was lost, from the memory of the client.
Again(g) ==
  LET un == st.streams[Name(g.i)].un
      at == g.off - acked[g.i]
  IN [g EXCEPT !.d = SubSeq(un, at + 1, at + Len(g.d))]

TransportFirst ==
  /\ InCall /\ ~st.call.idle /\ ~st.call.made
  /\ \/ /\ lost # {} /\ ~Congested
        /\ \E g \in lost :
             /\ net' = net \cup {Again(g)}
             /\ lost' = lost \ {g}
        /\ st' = Allowed(OnPacket(st, Event @@ [a |-> "ok", p |-> Packet(1)]))
        /\ hist' = Log(<<"pkt", "ok">>)
     \/ /\ lost = {} \/ Congested
        /\ st' = Allowed(OnPacket(st, Event @@ [a |-> "idle"]))
        /\ hist' = Log(<<"pkt", "idle">>)
        /\ UNCHANGED <<net, lost>>
  /\ UNCHANGED <<added, adds, asked, limit, opened, credit, taken, acked, got, end, losses>>

Going == InCall /\ st.call.idle /\ ~st.call.made /\ ~st.call.congested

OpenStream ==
  /\ Going
  /\ \E x \in DOMAIN st.streams : ~st.streams[x].opened /\ x \notin st.call.blocked
  /\ \/ /\ opened < limit
        /\ st' = Allowed(OnOpen(st, [a |-> "ok", id |-> Name(opened)]))
        /\ opened' = opened + 1
        /\ hist' = Log(<<"open", "ok">>)
     \/ /\ opened >= limit
        /\ st' = Allowed(OnOpen(st, [a |-> "blocked"]))
        /\ hist' = Log(<<"open", "blocked">>)
        /\ UNCHANGED opened
  /\ UNCHANGED <<added, adds, asked, limit, credit, taken, acked, net, lost, got, end, losses>>

WriteStream(i) ==
  /\ Going /\ KnownStream(st, Name(i))
  /\ LET t == st.streams[Name(i)] IN
     /\ t.opened /\ Work(t) /\ Name(i) \notin st.call.blocked
     \* what module Quic allows, of these
     /\ \E d \in {t.pend, SubSeq(t.pend, 1, Min2(1, Len(t.pend))), From(t.pend, 2)}, f \in BOOLEAN :
          LET n == Min2(Len(d), Min2(credit[i], Most))
              a == IF Congested THEN "congested" ELSE IF d # <<>> /\ n = 0 THEN "blocked" ELSE "ok"
              r == OnWrite(st, Event @@ [id |-> Name(i), d |-> d, fin |-> f, a |-> a, n |-> n, p |-> Packet(2)])
          IN /\ r.ok
             /\ st' = r.st
             /\ IF a = "ok"
                THEN /\ taken' = [taken EXCEPT ![i] = [n |-> @.n + n, fin |-> f /\ n = Len(d)]]
                     /\ credit' = [credit EXCEPT ![i] = @ - n]
                     /\ net' = net \cup {[i |-> i, off |-> taken[i].n, d |-> SubSeq(d, 1, n),
                                          fin |-> f /\ n = Len(d)]}
                ELSE UNCHANGED <<taken, credit, net>>
             /\ hist' = Log(<<"write", a, n>>)
  /\ UNCHANGED <<added, adds, asked, limit, opened, acked, lost, got, end, losses>>

Return ==
  /\ InCall
  /\ \E e \in {[r |-> "ok", d |-> st.call.p], [r |-> "idle"]} :
       LET r == OnSent(st, e) IN
       /\ r.ok
       /\ st' = r.st
  /\ hist' = Log(<<"sent">>)
  /\ UNCHANGED <<added, adds, asked, limit, opened, credit, taken, acked, net, lost, got, end, losses>>

Step == TransportFirst \/ OpenStream \/ (\E i \in Ids : WriteStream(i)) \/ Return

----------------------------------------------------------------------------
(* The network, the peer, and what the transport learns of it *)

Raise == /\ st.ctx = "none" /\ limit < Streams
         /\ limit' = limit + 1
         /\ hist' = Log(<<"raise">>)
         /\ UNCHANGED <<st, added, adds, asked, opened, credit, taken, acked, net, lost, got, end, losses>>

Grant(i) == /\ st.ctx = "none" /\ credit[i] + taken[i].n < Total
            /\ \E n \in {1, Total - credit[i] - taken[i].n} :
                 credit' = [credit EXCEPT ![i] = @ + n]
            /\ hist' = Log(<<"grant">>)
            /\ UNCHANGED <<st, added, adds, asked, limit, opened, taken, acked, net, lost, got, end, losses>>

Deliver(g) ==
  /\ st.ctx = "none" /\ g \in net
  /\ net' = net \ {g}
  /\ got' = [got EXCEPT ![g.i] = @ \cup {<<g.off + k, g.d[k]>> : k \in DOMAIN g.d}]
  /\ end' = [end EXCEPT ![g.i] = IF g.fin THEN g.off + Len(g.d) ELSE @]
  /\ hist' = Log(<<"deliver">>)
  /\ UNCHANGED <<st, added, adds, asked, limit, opened, credit, taken, acked, lost, losses>>

Lose(g) ==
  /\ st.ctx = "none" /\ g \in net /\ losses > 0
  /\ net' = net \ {g} /\ lost' = lost \cup {g} /\ losses' = losses - 1
  /\ hist' = Log(<<"retx", Name(g.i)>>)
  /\ UNCHANGED <<st, added, adds, asked, limit, opened, credit, taken, acked, got, end>>

\* How far the peer has received a stream without gaps.
Through(i) ==
  LET offs == {x[1] : x \in got[i]} IN
  CHOOSE n \in 0..Cardinality(offs) : 1..n \subseteq offs /\ (n + 1) \notin offs

Acknowledge(i) ==
  /\ st.ctx = "none"
  /\ \E n \in {1, Through(i) - acked[i]} :
       /\ n >= 1 /\ n <= Through(i) - acked[i]
       /\ LET s == Begin(st, "cb")
              r == OnAck(s, [id |-> Name(i), n |-> n, r |-> 0])
          IN st' = [Allowed(r) EXCEPT !.ctx = "none"]
       /\ acked' = [acked EXCEPT ![i] = @ + n]
       /\ hist' = Log(<<"ack", Name(i), n>>)
  /\ UNCHANGED <<added, adds, asked, limit, opened, credit, taken, net, lost, got, end, losses>>

----------------------------------------------------------------------------

World == \/ Raise
         \/ \E i \in Ids : Grant(i) \/ Acknowledge(i)
         \/ \E g \in net : Deliver(g)

Next == \/ \E i \in Ids : Add(i)
        \/ Call \/ Step \/ World
        \/ \E g \in net : Lose(g)

\* The user calls again and again; that does not keep the world from moving on.
Fair == /\ WF_vars(Call) /\ WF_vars(Step) /\ SF_vars(Raise)
        /\ \A i \in Ids : SF_vars(Grant(i)) /\ SF_vars(Acknowledge(i))
        /\ SF_vars(\E g \in net : Deliver(g))
Spec == Init /\ [][Next]_vars /\ Fair

----------------------------------------------------------------------------
(* What is checked *)

Known(i) == KnownStream(st, Name(i))

\* C23: the peer has nothing but what was added, where it was added.
Exact ==
  \A i \in Ids :
    /\ \A x \in got[i] : x[1] <= Len(added[i]) /\ x[2] = added[i][x[1]]
    /\ end[i] >= 0 => asked[i] /\ end[i] = Len(added[i])

\* C23: everything is either acknowledged, kept for being sent again, or waiting.
Kept ==
  \A i \in Ids :
    IF Known(i)
    THEN LET t == st.streams[Name(i)] IN
         /\ SubSeq(added[i], acked[i] + 1, Len(added[i])) = t.un \o t.pend
         /\ Len(t.un) = taken[i].n - acked[i]
         /\ t.finsent = taken[i].fin
    ELSE added[i] = <<>>

\* Whatever must be sent again is still there.
Repeatable ==
  \A g \in lost : g.off >= acked[g.i] /\ Again(g) = g

\* A call always comes to an end: there is a next step or a return.
Receptive ==
  InCall =>
    \/ ~st.call.idle /\ ~st.call.made
    \/ \E e \in {[r |-> "ok", d |-> st.call.p], [r |-> "idle"]} : OnSent(st, e).ok
    \/ Going /\ \E x \in DOMAIN st.streams : Work(st.streams[x]) /\ x \notin st.call.blocked

\* C23: data whose end was asked for arrives, and its memory is given back.
Arrives ==
  \A i \in Ids : asked[i] ~> /\ end[i] = Len(added[i]) /\ Through(i) = Len(added[i])
                             /\ st.streams[Name(i)].un = <<>> /\ st.streams[Name(i)].pend = <<>>

\* Complete behaviours, for the implementation to be run on.
Over == /\ st.ctx = "none" /\ net = {} /\ lost = {}
        /\ \A i \in Ids : /\ asked[i] /\ end[i] >= 0 /\ acked[i] = Len(added[i])
Show == (Scripts /\ Over) => PrintT("SCRIPT " \o ToJson([ops |-> hist]))

=============================================================================
