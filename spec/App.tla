--------------------------------- MODULE App ---------------------------------
(* The HTTP/3 client program between its user (arguments, exit code, standard
   output), the name service, the socket, the event loop and the transport and
   TLS libraries. Events of the first four are "x..."; those of the libraries are
   "u..." as in module Quic, which judges the handshake and the keys.

   The state follows
     - the packets: what the transport library has written has to be sent, each
       packet once and in order, and what has arrived has to be read;
     - the bytes of the two streams that the program writes, and of the two that
       it reads, so that what it asks for and what the response means are known;
     - the outcome: the first thing that settles it. must = "done" once the
       response is complete, "fail" once something has failed; may = TRUE if the
       program is free to give up, and "either" if the response is complete then. *)
EXTENDS Quic, Meaning

----------------------------------------------------------------------------
(* Arguments *)

Digit(c) == c \in 48..57
Digits(s) == s # <<>> /\ \A k \in DOMAIN s : Digit(s[k])

RECURSIVE NumberFrom(_, _, _)
NumberFrom(s, k, n) ==
  IF k > Len(s) \/ ~Digit(s[k]) THEN n
  ELSE NumberFrom(s, k + 1, IF n > 70000 THEN n ELSE n * 10 + s[k] - 48)

\* The ports that an argument can stand for; 0 for none. Blanks and a sign in
\* front, and anything behind the digits, may be refused or not.
RECURSIVE Trimmed(_)
Trimmed(s) == IF s # <<>> /\ Head(s) \in {9, 10, 11, 12, 13, 32} THEN Trimmed(Tail(s)) ELSE s
Unsigned(s) == IF s # <<>> /\ Head(s) = 43 THEN Tail(s) ELSE s
Ports(s) ==
  LET t == Unsigned(Trimmed(s))
      n == NumberFrom(t, 1, 0)
      port == IF t = <<>> \/ ~Digit(Head(t)) \/ n = 0 \/ n > 65535 THEN 0 ELSE n
  IN IF Digits(s) THEN {port} ELSE {0, port}

----------------------------------------------------------------------------
(* State *)

AInit == [ph |-> "none"]

AStart(e) ==
  [ph |-> "start", now |-> e.now, full |-> e.full,
   host |-> IF Len(e.args) >= 1 THEN e.args[1] ELSE <<>>,
   ports |-> IF Len(e.args) >= 2 THEN Ports(e.args[2]) ELSE {0},
   addrs |-> <<>>, tried |-> 0, local |-> <<>>,
   q |-> QInit,
   outq |-> <<>>, inq |-> <<>>, blocked |-> FALSE, asked |-> FALSE, excuse |-> FALSE,
   edge |-> FALSE,
   opened |-> {}, wrote |-> [x \in {"0", "2"} |-> [d |-> <<>>, fin |-> FALSE]],
   acked |-> [x \in {"0", "2"} |-> 0],
   read |-> [x \in {"0", "3"} |-> [d |-> <<>>, fin |-> FALSE]],
   must |-> IF Len(e.args) < 2 THEN "fail" ELSE "", may |-> FALSE, free |-> FALSE,
   last |-> e.now,          \* the time of the last packet, and of the start
   idle |-> Wide0, timer |-> "", didloss |-> FALSE, didack |-> FALSE,
   loss |-> WideMax, ack |-> WideMax]

Fails(s) == IF s.must = "" THEN [s EXCEPT !.must = "fail"] ELSE s
Done(s) == IF s.must = "" THEN [s EXCEPT !.must = IF s.may THEN "either" ELSE "done"] ELSE s

\* The sum of wide values (of less than 2^63).
RECURSIVE WPlusFrom(_, _, _, _, _)
WPlusFrom(a, b, k, c, acc) ==
  IF k = 0 THEN acc
  ELSE LET t == a[k] + b[k] + c IN WPlusFrom(a, b, k - 1, t \div 256, <<t % 256>> \o acc)
WPlus(a, b) == WPlusFrom(a, b, 8, 0, <<>>)

----------------------------------------------------------------------------
(* What has been asked for, and what the response means *)

Method == <<58, 109, 101, 116, 104, 111, 100>>
Get == <<71, 69, 84>>
Scheme == <<58, 115, 99, 104, 101, 109, 101>>
Https == <<104, 116, 116, 112, 115>>
Authority == <<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>
Path == <<58, 112, 97, 116, 104>>
Index == <<47, 105, 110, 100, 101, 120, 46, 104, 116, 109, 108>>

Asked(s) == {<<Method, Get>>, <<Scheme, Https>>, <<Authority, s.host>>, <<Path, Index>>}

RequestWritten(s) ==
  LET w == s.wrote["0"]
      m == RequestMeaning("server", w.d, 1, TRUE, "headers", NoRep) IN
  /\ w.fin
  /\ m.ends = {"finished"} /\ m.rep.body = <<>>
  /\ Len(m.rep.hs) = 4 /\ {m.rep.hs[k] : k \in 1..4} = Asked(s)

\* So far there is nothing wrong with what has been written.
WrittenRight(s, id) ==
  LET w == s.wrote[id] IN
  IF id = "0"
  THEN LET m == RequestMeaning("server", w.d, 1, FALSE, "headers", NoRep) IN
       /\ "open" \in m.ends /\ {m.rep.hs[k] : k \in DOMAIN m.rep.hs} \subseteq Asked(s)
       /\ w.fin => RequestWritten(s)
  ELSE LET t == VarintDecode(w.d, 1, Len(w.d)) IN
       /\ ~w.fin
       /\ t.r = "ok" => /\ t.v = Wide0
                        /\ "open" \in ControlMeaning("server", w.d, t.n + 1, "settings", NoRep).ends

ControlWritten(s) ==
  LET d == s.wrote["2"].d
      t == VarintDecode(d, 1, Len(d)) IN
  t.r = "ok" /\ ControlMeaning("server", d, t.n + 1, "settings", NoRep).rep.set # <<>>

Response(s) == RequestMeaning("client", s.read["0"].d, 1, s.read["0"].fin, "headers", NoRep)

\* What has been read on the peer's control stream.
Control(s) ==
  LET d == s.read["3"].d
      t == VarintDecode(d, 1, Len(d)) IN
  IF t.r # "ok" THEN Mean(NoRep, {"open"})
  ELSE IF t.v # Wide0 THEN Mean(NoRep, {"type"})
  ELSE ControlMeaning("client", d, t.n + 1, "settings", NoRep)

Colon == <<58, 32>>
RECURSIVE HeaderLines(_, _)
HeaderLines(hs, k) ==
  IF k > Len(hs) THEN <<10>>
  ELSE hs[k][1] \o Colon \o hs[k][2] \o <<10>> \o HeaderLines(hs, k + 1)
Printed(s) == LET m == Response(s).rep IN HeaderLines(m.hs, 1) \o m.body

IsSuffixOf(x, y) == Len(x) <= Len(y) /\ SubSeq(y, Len(y) - Len(x) + 1, Len(y)) = x

\* What follows from what a stream means now.
Settle(s, m) ==
  CASE s.free -> s
    [] m.ends = {"free"} -> [s EXCEPT !.free = TRUE]
    [] m.ends = {"finished"} /\ m.rep.ni = 0 -> Done(s)
    [] m.ends = {"finished"} /\ m.rep.ni > 0 -> [s EXCEPT !.free = TRUE]
    [] "open" \notin m.ends -> Fails(s)
    [] OTHER -> IF m.ends # {"open"} \/ m.rep.ni > 0 THEN [s EXCEPT !.may = TRUE] ELSE s

OnData(s, e) ==
  IF e.id \in {"0", "3"}
  THEN LET old == s.read[e.id]
           t == [s EXCEPT !.read[e.id] = [d |-> old.d \o e.d, fin |-> old.fin \/ e.fin]] IN
       IF s.must # "" \/ s.free THEN QYes(s)
       ELSE IF old.fin THEN QYes(Fails(s))
       ELSE IF e.id = "0" THEN
         QYes(IF "0" \in s.opened THEN Settle(t, Response(t)) ELSE [t EXCEPT !.free = TRUE])
       ELSE IF e.fin THEN QYes(Fails(t))
       ELSE QYes(Settle(t, Control(t)))
  \* other unidirectional streams are ignored
  ELSE IF e.m \in {2, 3} THEN QYes(s)
  ELSE QYes([s EXCEPT !.may = TRUE])

----------------------------------------------------------------------------
(* Setting up *)

OnDns(s, e) ==
  IF s.ph # "start" THEN QNo("names are resolved out of place")
  ELSE IF s.must # "" THEN QNo("there is nothing to resolve")
  ELSE IF e.name # s.host THEN QNo("another name is resolved")
  ELSE IF e.fail THEN QYes(Fails(s))
  ELSE QYes(IF e.out = <<>> THEN Fails(s) ELSE [s EXCEPT !.addrs = e.out, !.ph = "resolved"])

Family(a) == IF Len(a) = 4 THEN "v4" ELSE "v6"

OnSocket(s, e) ==
  IF s.ph # "resolved" \/ s.ports = {0} THEN QNo("a socket out of place")
  ELSE IF ~e.r THEN QYes([s EXCEPT !.tried = @ + 1, !.may = TRUE])
  ELSE QIf(s.tried < Len(s.addrs) /\ e.family = Family(s.addrs[s.tried + 1]) /\ e.udp /\ e.nonblock,
           s, "the wrong kind of socket")

OnConnect(s, e) ==
  IF ~(s.ph = "resolved" /\ s.tried < Len(s.addrs)) THEN QNo("connected out of place")
  ELSE IF ~(e.addr = s.addrs[s.tried + 1] /\ e.port \in s.ports \ {0})
  THEN QNo("connected to somewhere else")
  ELSE IF ~e.r THEN QYes([s EXCEPT !.tried = @ + 1, !.may = TRUE])
  ELSE QYes([s EXCEPT !.ph = "connected", !.local = e.local,
                      !.q = QStart([host |-> s.host, local |-> e.local, peer |-> e.addr,
                                    params |-> <<>>], s.now)])

\* Enough for a response and the three streams that a server opens.
ParamsGood(p) == /\ \A k \in {1, 3, 4} : p[k] # Wide0
                 /\ WLeq(WideOf(3), p[6]) /\ p[7] # Wide0

OnTransportSetup(s, e) ==
  IF s.ph # "connected" THEN QNo("transport setup out of place")
  ELSE IF ~ParamsGood(e.params) THEN QNo("the peer is allowed too little")
  ELSE LET r == OnTransport([s.q EXCEPT !.params = e.params], e) IN
       IF r.ok THEN QYes([s EXCEPT !.q = r.st]) ELSE r

----------------------------------------------------------------------------
(* Timers: there is one for the transport library, which is due at its expiry, and
   one for the end of the connection. The latter runs from the last packet that
   was received, or from something that was done since. *)

\* microseconds
IdleTime(w, s, idle) == WLeq(WPlus(s.last, Micro(idle)), w) /\ WLeq(w, WPlus(s.now, Micro(idle)))
\* Whole microseconds, rounded either way; the past is the past.
Expires(w, s, expiry) ==
  \/ w = Micro(expiry) \/ w = WPlus(Micro(expiry), WideOf(1))
  \/ WLeq(Micro(expiry), s.now) /\ WLeq(w, s.now)
\* Comes after the connection's end.
Late(w, s, idle) == WLeq(WPlus(s.now, Micro(idle)), w)

TimersGood(s, e) ==
  /\ \A k \in DOMAIN e.timers :
       \/ Late(e.timers[k], s, e.idle)
       \/ IdleTime(e.timers[k], s, e.idle) \/ Expires(e.timers[k], s, e.expiry)
  /\ \E k \in DOMAIN e.timers : IdleTime(e.timers[k], s, e.idle)
  /\ \/ WLeq(WPlus(s.now, Micro(e.idle)), Micro(e.expiry))      \* comes too late to matter
     \/ \E k \in DOMAIN e.timers : Expires(e.timers[k], s, e.expiry)

OnLoop(s, e) ==
  LET r == OnReady(s.q) IN
  IF s.ph # "connected" THEN QNo("the loop runs without a connection")
  ELSE IF s.must # "" THEN QNo("the loop runs after a failure")
  ELSE IF ~r.ok THEN r
  ELSE IF ~\E k \in DOMAIN e.timers : IdleTime(e.timers[k], s, e.idle)
  THEN QNo("nothing would end this")
  ELSE QYes([s EXCEPT !.ph = "loop", !.q = r.st, !.idle = e.idle])

\* A new turn of the event loop.
Turn(s, e) == [s EXCEPT !.now = e.now, !.q.now = e.now, !.q.hs.last = "none", !.asked = FALSE,
                        !.excuse = FALSE, !.edge = FALSE, !.timer = "", !.didloss = FALSE,
                        !.didack = FALSE]

OnIo(s, e) ==
  QIf(s.ph = "loop" /\ s.must = "",
      [Turn(s, e) EXCEPT !.edge = e["in"], !.asked = ~e["in"] /\ ~e.out, !.blocked = @ /\ ~e.out], "a turn after the end")

\* The time of an expiring timer tells which one it is. (s.now is still the time
\* of the turn before.)
OnTimer(s, e) ==
  LET rtx == Expires(e.time, [s EXCEPT !.now = e.now], e.expiry)
      end == IdleTime(e.time, s, e.idle)
      t == [Turn(s, e) EXCEPT !.loss = e.loss, !.ack = e.ack,
                              !.timer = IF rtx /\ end THEN "both" ELSE IF rtx THEN "transport"
                                        ELSE "idle"]
  IN IF ~(s.ph = "loop" /\ s.must = "") THEN QNo("a turn after the end")
     ELSE QYes(IF end /\ ~rtx THEN Fails(t)
               ELSE IF end THEN [t EXCEPT !.may = TRUE] ELSE t)

OnAppLoss(s, e) ==
  QIf(/\ s.timer \in {"transport", "both"} /\ ~s.didloss
      /\ e.ts = Nano(s.now) /\ WLeq(s.loss, e.ts),
      IF e.r THEN [s EXCEPT !.didloss = TRUE] ELSE Fails([s EXCEPT !.didloss = TRUE]), "loss timer")
OnAppAckDelay(s, e) ==
  QIf(/\ s.timer \in {"transport", "both"} /\ ~s.didack
      /\ e.ts = Nano(s.now) /\ WLeq(s.ack, e.ts),
      [s EXCEPT !.didack = TRUE], "ack delay timer")

OnTurnDone(s, e) ==
  LET over == s.must # "" IN
  IF e.exit THEN QIf(over \/ s.may \/ s.free, [s EXCEPT !.ph = "exit"], "gave up without a reason")
  ELSE IF over THEN QNo("went on though the outcome is settled")
  ELSE IF ~e.r THEN QNo("the event loop stops listening")
  ELSE IF s.outq # <<>> /\ ~s.blocked THEN QNo("a packet is left unsent")
  ELSE IF s.inq # <<>> THEN QNo("a packet is left unread")
  ELSE IF s.edge /\ e.waiting # 0 THEN QNo("a packet is left in the socket")
  ELSE IF ~TimersGood(s, e) THEN QNo("timers")
  ELSE IF s.timer \in {"transport", "both"}
          /\ ((WLeq(s.loss, Nano(s.now)) /\ ~s.didloss) \/ (WLeq(s.ack, Nano(s.now)) /\ ~s.didack))
  THEN QNo("a timer of the transport library is not handled")
  ELSE IF ~s.blocked /\ ~s.asked THEN QNo("the transport library is not asked for packets")
  ELSE IF /\ s.q.completed /\ ~s.blocked /\ ~s.excuse /\ ~s.may /\ ~s.free
          /\ ~(RequestWritten(s) /\ ControlWritten(s))
  THEN QNo("the request is not sent")
  ELSE QYes([s EXCEPT !.idle = e.idle])

----------------------------------------------------------------------------
(* Packets *)

OnAppPacket(s, e) ==
  IF ~(/\ s.ph = "loop"
       /\ e.ts = Nano(s.now) /\ e.local = s.q.local /\ e.remote = s.q.peer
       /\ (s.q.completed \/ s.q.hs.last # "none"))
  THEN QNo("writing a packet")
  ELSE QYes(CASE e.a = "ok" -> [s EXCEPT !.outq = Append(@, e.p), !.asked = FALSE]
              [] e.a = "idle" -> [s EXCEPT !.asked = TRUE]
              [] e.a = "error" -> Fails(s))

OnAppOpen(s, e) ==
  IF ~(s.ph = "loop" /\ s.q.completed) THEN QNo("opening a stream")
  ELSE QYes(CASE e.a = "error" -> Fails(s)
              [] e.a = "blocked" -> [s EXCEPT !.excuse = TRUE]
              [] OTHER -> [s EXCEPT !.opened = @ \cup {e.id}])

OnAppWrite(s, e) ==
  IF ~(s.ph = "loop" /\ s.q.completed /\ e.id \in s.opened /\ e.id \in {"0", "2"})
  THEN QNo("writing to a stream")
  ELSE IF e.ts # Nano(s.now) THEN QNo("time of a write")
  ELSE IF e.d = <<>> /\ ~e.fin THEN QNo("an empty write")
  ELSE
  LET w == s.wrote[e.id]
      all == [s EXCEPT !.wrote[e.id] = [d |-> w.d \o e.d, fin |-> w.fin \/ e.fin]]
  IN IF w.fin \/ ~WrittenRight(all, e.id) THEN QNo("the wrong request")
     ELSE QYes(
       CASE e.a = "ok" ->
              [s EXCEPT !.outq = Append(@, e.p),
                        !.wrote[e.id] = [d |-> w.d \o SubSeq(e.d, 1, e.n),
                                         fin |-> e.fin /\ e.n = Len(e.d)]]
         [] e.a = "none" -> [s EXCEPT !.outq = Append(@, e.p)]
         [] e.a \in {"blocked", "congested"} -> [s EXCEPT !.excuse = TRUE]
         [] e.a = "shut" -> Fails(s))

OnAppSend(s, e) ==
  IF s.outq = <<>> \/ e.d # Head(s.outq) THEN QNo("another packet is sent")
  ELSE QYes(CASE e.a = "ok" -> [s EXCEPT !.outq = Tail(@)]
              [] e.a = "again" -> [s EXCEPT !.blocked = TRUE]
              [] OTHER -> Fails(s))

OnAppAck(s, e) ==
  LET un == IF e.id \in DOMAIN s.wrote THEN Len(s.wrote[e.id].d) - s.acked[e.id] ELSE 0 IN
  IF e.n > un THEN QIf(e.r # 0, s, "more was acknowledged than was sent")
  ELSE IF e.id \notin DOMAIN s.wrote THEN QYes(s)
  ELSE QIf(e.r = 0, [s EXCEPT !.acked[e.id] = @ + e.n], "an acknowledgement")

OnAppRecv(s, e) ==
  CASE e.a = "ok" -> QYes([s EXCEPT !.inq = Append(@, e.d)])
    [] e.a = "again" -> QYes(s)
    [] e.a = "error" -> QYes(Fails(s))

OnAppRead(s, e) ==
  QIf(/\ s.ph = "loop" /\ s.inq # <<>> /\ e.d = Head(s.inq)
      /\ e.ts = Nano(s.now) /\ e.local = s.q.local /\ e.remote = s.q.peer,
      [s EXCEPT !.inq = Tail(@), !.last = s.now], "another packet is read")

----------------------------------------------------------------------------
(* The end *)

OnEnd(s, e) ==
  IF e.fds # 0 \/ e.sources # 0 \/ e.events # 0 \/ e.conn THEN QNo("something is not released")
  ELSE IF ~(s.ph = "exit" \/ (s.ph # "loop" /\ (s.must # "" \/ s.may \/ 0 \in s.ports)))
  THEN QNo("ended without a reason")
  ELSE IF e.code # 0
  THEN QIf(s.must # "done" \/ s.full \/ s.free, AInit, "a good response is a failure")
  ELSE IF s.free /\ s.ph = "exit" THEN QYes(AInit)
  ELSE IF s.must \notin {"done", "either"} THEN QNo("success without a response")
  ELSE IF s.full THEN QNo("success though nothing can be printed")
  ELSE QIf(IsSuffixOf(Printed(s), e.out), AInit, "the response is not printed")

----------------------------------------------------------------------------

\* Events of the libraries that are judged by module Quic.
Ours == {"ussl", "utp", "uextract", "uexpand", "uinstall", "uhs", "usecrets", "uoverhead",
         "usecretsr", "udata", "usubmit", "udatar", "ucbcrypto", "uprovide", "upost",
         "ucompleted", "udtp", "urtp", "ucbcryptor", "ucbkey", "ucbkeyr", "ucbkack",
         "ucbnote", "ucbpath", "ucbdead", "uhsr"}

OnLibrary(s, e) ==
  LET r == OnQuic(s.q, e) IN
  IF ~r.ok THEN r
  ELSE LET t == [s EXCEPT !.q = r.st] IN
       QYes(IF e.o = "uhsr" /\ e.a = "err" /\ ~s.q.cr.on THEN Fails(t)
            ELSE t)

OnApp(s, e) ==
  CASE e.o = "xmain" -> QYes(AStart(e))
    [] s.ph = "none" -> QNo("nothing runs")
    [] e.o = "xdns" -> OnDns(s, e)
    [] e.o = "xsocket" -> OnSocket(s, e)
    [] e.o = "xconnect" -> OnConnect(s, e)
    [] e.o = "xopt" -> QYes([s EXCEPT !.may = TRUE])
    [] e.o = "xaddio" -> QIf(e.fd /\ e["in"] /\ e.out, s, "the socket is not watched")
    [] e.o = "xaddtime" -> QIf(e.monotonic, s, "a timer of another clock")
    [] e.o = "xsdfail" -> QYes(Fails(s))
    [] e.o = "xloop" -> OnLoop(s, e)
    [] e.o = "xio" -> OnIo(s, e)
    [] e.o = "xtimer" -> OnTimer(s, e)
    [] e.o = "xsignal" -> QIf(e.watched, Fails(s), "a signal is ignored")
    [] e.o = "xignored" -> QIf(~e.off, s, "nobody listens")
    [] e.o = "xdone" -> OnTurnDone(s, e)
    [] e.o = "xexit" -> QYes([s EXCEPT !.ph = IF s.ph = "loop" /\ s.must = "fail" THEN "exit" ELSE @])
    [] e.o = "xsoerr" -> QYes(IF e.e # 0 THEN Fails(s) ELSE s)
    [] e.o = "xsend" -> OnAppSend(s, e)
    [] e.o = "xrecv" -> OnAppRecv(s, e)
    [] e.o = "xclose" -> QIf(e.open, s, "closed twice")
    [] e.o = "xleft" -> QNo("the event loop goes before its sources")
    [] e.o = "xstuck" -> QNo("nothing will ever happen any more")
    [] e.o = "xendless" -> QNo("this does not end")
    [] e.o = "xend" -> OnEnd(s, e)
    [] s.ph \notin {"connected", "loop", "exit"} -> QNo("no connection")
    [] e.o = "unc" -> OnTransportSetup(s, e)
    [] e.o = "upkt" -> OnAppPacket(s, e)
    [] e.o = "uopen" -> OnAppOpen(s, e)
    [] e.o = "uwrite" -> OnAppWrite(s, e)
    [] e.o = "ucback" -> OnAppAck(s, e)
    [] e.o = "uread" -> OnAppRead(s, e)
    [] e.o = "ureadr" -> QYes(IF e.r # 0 THEN Fails(s) ELSE s)
    [] e.o = "uloss" -> OnAppLoss(s, e)
    [] e.o = "uackdelay" -> OnAppAckDelay(s, e)
    [] e.o = "ucbdata" -> OnData(s, e)
    [] e.o = "ucbreset" -> QYes(IF s.must # "" THEN s
                                ELSE IF e.id \in {"0", "3"} THEN Fails(s)
                                ELSE [s EXCEPT !.may = TRUE])
    [] e.o \in Ours -> OnLibrary(s, e)

=============================================================================
