-------------------------------- MODULE Quic --------------------------------
(* The QUIC client between its user, a transport library (ngtcp2) and a TLS
   library (BoringSSL). Events are the calls of the user and what they returned,
   the calls that the client makes into the two libraries and how these answered
   ("u..." in the recordings), and the callbacks of the libraries ("ucb...").

   Cryptography is symbolic: every extraction and expansion that was made is a
   term in `terms', and a key is right if it is the term the protocol asks for. *)
EXTENDS Bytes

QYes(s) == [ok |-> TRUE, st |-> s, why |-> ""]
QNo(why) == [ok |-> FALSE, st |-> 0, why |-> why]
QIf(c, s, why) == IF c THEN QYes(s) ELSE QNo(why)

----------------------------------------------------------------------------
(* Constants of the protocol (draft 22) *)

InitialSalt == <<127, 188, 219, 14, 124, 102, 187, 233, 25, 58, 150, 205, 33, 81, 158, 189,
                 122, 2, 100, 74>>
Alpn == <<5, 104, 51, 45, 50, 50>>                              \* "h3-22"
Tls13 == <<3, 4>>
LTls == <<116, 108, 115, 49, 51, 32>>                           \* "tls13 "
LKey == <<113, 117, 105, 99, 32, 107, 101, 121>>                \* "quic key"
LIv == <<113, 117, 105, 99, 32, 105, 118>>                      \* "quic iv"
LHp == <<113, 117, 105, 99, 32, 104, 112>>                      \* "quic hp"
LClient == <<99, 108, 105, 101, 110, 116, 32, 105, 110>>        \* "client in"
LServer == <<115, 101, 114, 118, 101, 114, 32, 105, 110>>       \* "server in"
LUpdate == <<116, 114, 97, 102, 102, 105, 99, 32, 117, 112, 100>> \* "traffic upd"

HkdfLabel(label, n) ==
  <<n \div 256, n % 256, Len(LTls) + Len(label)>> \o LTls \o label \o <<0>>

\* TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384, TLS_CHACHA20_POLY1305_SHA256
Ciphers == {"50336513", "50336514", "50336515"}
MdOf(c) == IF c = "50336514" THEN "sha384" ELSE "sha256"
AeadOf(c) == CASE c = "50336513" -> "aes128" [] c = "50336514" -> "aes256"
               [] c = "50336515" -> "chacha"
KeySize(c) == IF c = "50336513" THEN 16 ELSE 32
IvSize == 12

ErrCrypto == -215

----------------------------------------------------------------------------
(* Time: the clock counts microseconds, the transport nanoseconds. *)

RECURSIVE WMulFrom(_, _, _, _, _)
WMulFrom(w, n, k, c, acc) ==
  IF k = 0 THEN acc
  ELSE LET t == w[k] * n + c IN WMulFrom(w, n, k - 1, t \div 256, <<t % 256>> \o acc)
Nano(w) == WMulFrom(w, 1000, 8, 0, <<>>)

RECURSIVE WDivFrom(_, _, _, _, _)
WDivFrom(w, n, k, rem, acc) ==
  IF k > 8 THEN acc
  ELSE LET t == rem * 256 + w[k] IN WDivFrom(w, n, k + 1, t % n, Append(acc, t \div n))
Micro(w) == WDivFrom(w, 1000, 1, 0, <<>>)

----------------------------------------------------------------------------
(* State *)

NoCall == [made |-> FALSE, p |-> <<>>, err |-> "", idle |-> FALSE, congested |-> FALSE,
           blocked |-> {}, d |-> <<>>, read |-> FALSE, rv |-> 0, loss |-> Wide0, ack |-> Wide0,
           didloss |-> FALSE, didack |-> FALSE]
NoHs == [on |-> FALSE, last |-> "none", tp |-> <<>>]
NoSec == [on |-> FALSE, level |-> "", rd |-> <<>>, wr |-> <<>>, inst |-> {}, over |-> FALSE,
          fail |-> FALSE]
NoDat == [on |-> FALSE, level |-> "", d |-> <<>>, n |-> 0, fail |-> FALSE]
NoCr == [on |-> FALSE, level |-> "", d |-> <<>>, prov |-> "no", post |-> "no",
         was |-> FALSE, dtp |-> FALSE, rtp |-> FALSE, fail |-> FALSE]
NoKey == [on |-> FALSE, fail |-> FALSE, inst |-> {}, tx |-> <<>>, rx |-> <<>>]
NoProt == [on |-> FALSE]

QInit == [alive |-> FALSE, now |-> Wide0]

QStart(e, now) ==
  [alive |-> TRUE, now |-> now, ctx |-> "new", host |-> e.host, local |-> e.local,
   peer |-> e.peer, params |-> e.params, dcid |-> <<>>, tp |-> <<>>, ssl |-> {},
   terms |-> {}, inst |-> {}, streams |-> <<>>,
   crypto |-> [x \in {"initial", "early", "handshake", "application"} |-> <<>>],
   completed |-> FALSE, cipher |-> "none", tx |-> <<>>, rx |-> <<>>, dead |-> FALSE,
   evq |-> <<>>, call |-> NoCall, hs |-> NoHs, sec |-> NoSec, dat |-> NoDat, cr |-> NoCr,
   key |-> NoKey, prot |-> NoProt, marked |-> FALSE]

\* A stream: pend not yet written, un written and not acknowledged.
QStream == [pend |-> <<>>, un |-> <<>>, fin |-> FALSE, finsent |-> FALSE, opened |-> FALSE]

Work(t) == t.pend # <<>> \/ (t.fin /\ ~t.finsent)
KnownStream(s, id) == id \in DOMAIN s.streams
PutStream(s, id, t) ==
  [s EXCEPT !.streams = [x \in DOMAIN s.streams \cup {id} |->
                           IF x = id THEN t ELSE s.streams[x]]]

Quiet(s) == /\ \A x \in DOMAIN s.streams : s.streams[x].pend = <<>> /\ s.streams[x].un = <<>>
            /\ \A x \in DOMAIN s.crypto : s.crypto[x] = <<>>
            /\ s.evq = <<>>

----------------------------------------------------------------------------
(* Key derivation *)

Derived(s, out, md, prk, label, n) ==
  /\ Len(out) = n
  /\ [k |-> "expand", md |-> md, prk |-> prk, info |-> HkdfLabel(label, n), out |-> out] \in s.terms

Keys(s, e, md, secret, n) ==
  /\ Derived(s, e.key, md, secret, LKey, n)
  /\ Derived(s, e.iv, md, secret, LIv, IvSize)

InitialKeys(s, e, label) ==
  \E i \in s.terms : \E c \in s.terms :
    /\ i.k = "extract" /\ i.md = "sha256" /\ i.prk = s.dcid /\ i.info = InitialSalt
    /\ c.k = "expand" /\ c.prk = i.out /\ Derived(s, c.out, "sha256", i.out, label, 32)
    /\ Keys(s, e, "sha256", c.out, 16)
    /\ Derived(s, e.hp, "sha256", c.out, LHp, 16)

SecretKeys(s, e, secret) ==
  /\ Keys(s, e, MdOf(s.cipher), secret, KeySize(s.cipher))
  /\ Derived(s, e.hp, MdOf(s.cipher), secret, LHp, KeySize(s.cipher))

\* The secrets that the given keys can have been made from by an update.
Updates(s, e, secret) ==
  {t.out : t \in {u \in s.terms :
     /\ u.k = "expand" /\ u.prk = secret
     /\ Derived(s, u.out, MdOf(s.cipher), secret, LUpdate, Len(secret))
     /\ Keys(s, e, MdOf(s.cipher), u.out, KeySize(s.cipher))}}

OnInstall(s, e) ==
  LET failed(x) == [x EXCEPT !.fail = @ \/ ~e.r] IN
  CASE s.ctx = "new" ->
         QIf(/\ e.r /\ e.kind \notin s.inst
             /\ \/ e.kind = "initial tx" /\ InitialKeys(s, e, LClient)
                \/ e.kind = "initial rx" /\ InitialKeys(s, e, LServer),
             [s EXCEPT !.inst = @ \cup {e.kind}], "initial keys")
    [] s.sec.on ->
         QIf(/\ s.cipher \in Ciphers /\ e.kind \notin s.sec.inst /\ ~s.sec.fail
             /\ CASE s.sec.level = "early" -> e.kind = "early" /\ SecretKeys(s, e, s.sec.wr)
                  [] s.sec.level = "handshake" ->
                       \/ e.kind = "handshake tx" /\ SecretKeys(s, e, s.sec.wr)
                       \/ e.kind = "handshake rx" /\ SecretKeys(s, e, s.sec.rd)
                  [] s.sec.level = "application" ->
                       \/ e.kind = "tx" /\ SecretKeys(s, e, s.sec.wr)
                       \/ e.kind = "rx" /\ SecretKeys(s, e, s.sec.rd)
                  [] OTHER -> FALSE,
             [s EXCEPT !.sec = failed([@ EXCEPT !.inst = @ \cup {e.kind}])], "keys")
    [] s.key.on /\ s.dead -> QYes(s)
    [] s.key.on ->
         LET u == IF s.cipher \notin Ciphers THEN {}
                  ELSE IF e.kind = "update tx" THEN Updates(s, e, s.tx)
                  ELSE IF e.kind = "update rx" THEN Updates(s, e, s.rx) ELSE {}
         IN IF u = {} \/ e.kind \in s.key.inst \/ s.key.fail THEN QNo("updated keys")
            ELSE LET n == CHOOSE x \in u : TRUE IN
                 QYes([s EXCEPT !.key = failed(
                   [@ EXCEPT !.inst = @ \cup {e.kind},
                             !.tx = IF e.kind = "update tx" THEN n ELSE @,
                             !.rx = IF e.kind = "update rx" THEN n ELSE @])])
    [] OTHER -> QNo("keys out of place")

OnTerm(s, e) ==
  LET t == IF e.o = "uextract"
           THEN [k |-> "extract", md |-> e.md, prk |-> e.secret, info |-> e.salt, out |-> e.out]
           ELSE [k |-> "expand", md |-> e.md, prk |-> e.prk, info |-> e.info, out |-> e.out]
  IN IF e.r THEN QYes([s EXCEPT !.terms = @ \cup {t}])
     ELSE IF s.sec.on THEN QYes([s EXCEPT !.sec.fail = TRUE])
     ELSE QYes([s EXCEPT !.key.fail = TRUE])

----------------------------------------------------------------------------
(* Construction *)

OnSsl(s, e) ==
  QIf(/\ s.ctx = "new"
      /\ CASE e.what = "alpn" -> e.v = Alpn
           [] e.what \in {"min", "max"} -> e.v = Tls13
           [] e.what = "host" -> e.v = s.host
           [] e.what = "tp" -> e.v = s.tp /\ s.tp # <<>>
           [] OTHER -> TRUE,
      [s EXCEPT !.ssl = @ \cup {e.what}], "TLS setup")

OnTransport(s, e) ==
  QIf(/\ s.ctx = "new" /\ e.version
      /\ e.local = s.local /\ e.remote = s.peer
      /\ e.ts = Nano(s.now)
      /\ e.params = s.params
      /\ Len(e.dcid) >= 8 /\ Len(e.scid) >= 1 /\ e.dcid # e.scid,
      [s EXCEPT !.dcid = e.dcid], "transport setup")

OnReady(s) ==
  QIf(/\ s.dcid # <<>>
      /\ s.inst = {"initial tx", "initial rx"}
      /\ s.ssl = {"alpn", "client", "min", "max", "host", "tp"},
      [s EXCEPT !.ctx = "none"], "not set up")

----------------------------------------------------------------------------
(* The handshake *)

OnHs(s) == QIf(~s.hs.on, [s EXCEPT !.hs.on = TRUE], "handshake inside handshake")

OnHsResult(s, e) ==
  LET t == [s EXCEPT !.hs = [on |-> FALSE, last |-> e.a,
                             tp |-> IF e.a = "done" THEN e.tp ELSE @.tp]] IN
  QYes(IF e.a = "err" /\ s.ctx = "send" THEN [t EXCEPT !.call.err = "handshake"] ELSE t)

OnSecrets(s, e) ==
  QYes([s EXCEPT !.cipher = e.cipher,
                 !.sec = [NoSec EXCEPT !.on = TRUE, !.level = e.level, !.rd = e.rd, !.wr = e.wr]])

OnSecretsResult(s, e) ==
  LET need == CASE s.sec.level = "early" -> {"early"}
                [] s.sec.level = "handshake" -> {"handshake tx", "handshake rx"}
                [] s.sec.level = "application" -> {"tx", "rx"}
                [] OTHER -> {}
      good == need # {} /\ s.cipher \in Ciphers /\ ~s.sec.fail
      t == [s EXCEPT !.sec = NoSec]
  IN IF good
     THEN QIf(/\ e.r = 1 /\ s.sec.inst = need /\ s.sec.over,
              IF s.sec.level = "application"
              THEN [t EXCEPT !.tx = s.sec.wr, !.rx = s.sec.rd] ELSE t,
              "secrets were not put to use")
     ELSE QIf(e.r = 0, [t EXCEPT !.dead = TRUE], "bad secrets were accepted")

OnHandshakeData(s, e) ==
  QYes([s EXCEPT !.dat = [NoDat EXCEPT !.on = TRUE, !.level = e.level, !.d = e.d]])
OnCryptoSubmit(s, e) ==
  QIf(s.dat.on /\ s.dat.n = 0 /\ e.level = s.dat.level /\ e.d = s.dat.d,
      IF e.r THEN [s EXCEPT !.dat.n = 1, !.crypto[e.level] = @ \o e.d]
      ELSE [s EXCEPT !.dat.n = 1, !.dat.fail = TRUE], "handshake data to send")
OnHandshakeDataResult(s, e) ==
  QIf(s.dat.n = 1 /\ e.r = (IF s.dat.fail THEN 0 ELSE 1), [s EXCEPT !.dat = NoDat],
      "handshake data result")

OnCrypto(s, e) ==
  QYes([s EXCEPT !.cr = [NoCr EXCEPT !.on = TRUE, !.level = e.level, !.d = e.d, !.was = s.completed],
                 !.hs.last = "none"])
OnProvide(s, e) ==
  QIf(s.cr.on /\ s.cr.prov = "no" /\ e.level = s.cr.level /\ e.d = s.cr.d,
      \* what the handshake came to before that does not count
      [s EXCEPT !.cr.prov = IF e.r THEN "yes" ELSE "failed", !.hs.last = "none"],
      "handshake data received")
OnPost(s, e) ==
  QIf(s.cr.on /\ s.cr.prov = "yes" /\ s.cr.was,
      [s EXCEPT !.cr.post = IF e.r THEN "yes" ELSE "failed"], "post-handshake processing")
OnCompleted(s) ==
  QIf(s.cr.on /\ s.hs.last = "done" /\ ~s.completed, [s EXCEPT !.completed = TRUE],
      "completed too early")
OnDecodeParams(s, e) ==
  QIf(s.cr.on /\ s.hs.last = "done" /\ e.right,
      [s EXCEPT !.cr.dtp = e.r, !.cr.fail = @ \/ ~e.r], "peer's parameters")
OnRemoteParams(s, e) ==
  QIf(s.cr.on /\ s.cr.dtp /\ e.d = s.hs.tp,
      [s EXCEPT !.cr.rtp = TRUE, !.cr.fail = @ \/ ~e.r], "peer's parameters are passed on")

OnCryptoResult(s, e) ==
  LET c == s.cr
      good == CASE c.prov = "failed" -> e.r = ErrCrypto
                [] c.prov = "no" -> FALSE
                [] c.fail -> e.r # 0
                [] c.was -> (c.post = "yes" /\ e.r = 0) \/ (c.post = "failed" /\ e.r = ErrCrypto)
                [] s.hs.last = "want" -> e.r = 0
                [] s.hs.last = "err" -> e.r = ErrCrypto
                [] s.hs.last = "done" -> s.completed /\ c.rtp /\ e.r = 0
                [] OTHER -> FALSE
  IN QIf(good, [s EXCEPT !.cr = NoCr], "result of handshake data")

OnKeyUpdateResult(s, e) ==
  IF s.dead THEN QYes([s EXCEPT !.key = NoKey])
  ELSE IF s.cipher \in Ciphers /\ s.tx # <<>> /\ ~s.key.fail
  THEN QIf(e.r = 0 /\ s.key.inst = {"update tx", "update rx"},
           [s EXCEPT !.tx = s.key.tx, !.rx = s.key.rx, !.key = NoKey], "key update")
  ELSE QIf(e.r # 0, [s EXCEPT !.key = NoKey, !.dead = TRUE], "a key update that failed")

----------------------------------------------------------------------------
(* Sending *)

OnAdd(s, e) ==
  LET t == IF KnownStream(s, e.id) THEN s.streams[e.id] ELSE QStream IN
  QIf(s.ctx = "none" /\ e.r = "ok",
      PutStream(s, e.id, [t EXCEPT !.pend = @ \o e.d, !.fin = @ \/ e.fin]), "add")

OnPacket(s, e) ==
  IF /\ s.ctx = "send" /\ ~s.call.made /\ s.call.err = ""
     /\ e.ts = Nano(s.now) /\ e.local = s.local /\ e.remote = s.peer
     /\ (s.completed \/ s.hs.last # "none")
  THEN QYes(CASE e.a = "ok" -> [s EXCEPT !.call.made = TRUE, !.call.p = e.p]
              [] e.a = "idle" -> [s EXCEPT !.call.idle = TRUE]
              [] e.a = "error" -> [s EXCEPT !.call.err = "ngtcp2"])
  ELSE QNo("writing a packet")

OnOpen(s, e) ==
  IF ~(s.ctx = "send" /\ s.completed /\ ~s.call.made /\ s.call.err = "" /\ s.call.idle)
  THEN QNo("opening a stream")
  ELSE CASE e.a = "error" -> QYes([s EXCEPT !.call.err = "ngtcp2"])
         [] e.a = "blocked" ->
              LET ids == {x \in DOMAIN s.streams : ~s.streams[x].opened}
              IN QIf(ids # {}, [s EXCEPT !.call.blocked = @ \cup ids], "opening nothing")
         [] OTHER ->
              IF KnownStream(s, e.id) /\ ~s.streams[e.id].opened
              THEN QYes([s EXCEPT !.streams[e.id].opened = TRUE])
              ELSE QNo("opening a stream that is not used")

OnWrite(s, e) ==
  IF ~(/\ s.ctx = "send" /\ s.completed /\ ~s.call.made /\ s.call.err = "" /\ s.call.idle
       /\ KnownStream(s, e.id))
  THEN QNo("writing to a stream")
  ELSE LET t == s.streams[e.id] IN
  IF ~t.opened \/ t.finsent THEN QNo("writing to a stream that is not open")
  ELSE IF ~IsPrefixOf(e.d, t.pend) THEN QNo("stream data")
  ELSE IF e.fin /\ ~(t.fin /\ e.d = t.pend) THEN QNo("the end of the stream comes too early")
  ELSE IF e.d = <<>> /\ ~e.fin THEN QNo("an empty write")
  ELSE IF e.ts # Nano(s.now) THEN QNo("time of a write")
  ELSE CASE e.a = "ok" ->
              QYes([s EXCEPT !.call.made = TRUE, !.call.p = e.p,
                     !.streams[e.id] = [t EXCEPT !.pend = From(@, e.n + 1),
                                                 !.un = @ \o SubSeq(e.d, 1, e.n),
                                                 !.finsent = e.fin /\ e.n = Len(e.d)]])
         [] e.a = "none" -> QYes([s EXCEPT !.call.made = TRUE, !.call.p = e.p])
         [] e.a = "blocked" -> QYes([s EXCEPT !.call.blocked = @ \cup {e.id}])
         [] e.a = "shut" -> QYes([s EXCEPT !.call.err = "ngtcp2"])
         [] e.a = "congested" -> QYes([s EXCEPT !.call.congested = TRUE])

OnSent(s, e) ==
  LET c == s.call
      t == [s EXCEPT !.ctx = "none", !.call = NoCall] IN
  CASE s.ctx # "send" -> QNo("sent")
    [] e.r = "ok" -> QIf(c.err = "" /\ c.made /\ e.d = c.p, t, "the packet is not passed on")
    [] e.r = "idle" ->
         QIf(/\ c.err = "" /\ ~c.made /\ c.idle
             /\ \/ ~s.completed \/ c.congested
                \/ \A x \in DOMAIN s.streams : Work(s.streams[x]) => x \in c.blocked,
             t, "idle though there is something to send")
    [] OTHER -> QIf(c.err # "" /\ e.r = c.err, t, "an error out of nowhere")

OnAck(s, e) ==
  LET un == IF KnownStream(s, e.id) THEN s.streams[e.id].un ELSE <<>> IN
  IF e.n > Len(un) THEN QIf(e.r # 0, s, "more was acknowledged than was sent")
  ELSE IF ~KnownStream(s, e.id) THEN QYes(s)
  ELSE QIf(e.r = 0, [s EXCEPT !.streams[e.id].un = From(@, e.n + 1)], "an acknowledgement")

OnCryptoAck(s, e) ==
  IF e.n > Len(s.crypto[e.level])
  THEN QIf(e.r # 0, s, "more was acknowledged than was sent")
  ELSE QIf(e.r = 0, [s EXCEPT !.crypto[e.level] = From(@, e.n + 1)], "an acknowledgement")

OnRetransmit(s, e) ==
  QIf((IF KnownStream(s, e.id) THEN s.streams[e.id].un ELSE <<>>) = e.d, s,
      "unacknowledged data has changed")
OnCryptoRetransmit(s, e) ==
  QIf(s.crypto[e.level] = e.d, s, "unacknowledged handshake data has changed")

----------------------------------------------------------------------------
(* Receiving *)

OnRead(s, e) ==
  QIf(/\ s.ctx = "recv" /\ ~s.call.read
      /\ e.d = s.call.d /\ e.ts = Nano(s.now) /\ e.local = s.local /\ e.remote = s.peer,
      [s EXCEPT !.call.read = TRUE], "reading a packet")

OnReceived(s, e) ==
  LET t == [s EXCEPT !.ctx = "none", !.call = NoCall] IN
  QIf(s.ctx = "recv" /\ s.call.read /\ e.r = "ok",
      IF s.call.rv # 0 THEN [t EXCEPT !.evq = Append(@, [k |-> "failure"])] ELSE t, "received")

OnEvent(s, e) ==
  IF e.kind = "none" THEN QIf(s.evq = <<>>, s, "an event was lost")
  ELSE IF s.evq = <<>> THEN QNo("an event out of nowhere")
  ELSE LET h == Head(s.evq)
           t == [s EXCEPT !.evq = Tail(@)] IN
       CASE h.k = "data" -> QIf(/\ e.kind = "data" /\ e.id = h.id /\ e.fin = h.fin /\ e.d = h.d
                                /\ e.same, t, "stream data received")
         [] h.k = "reset" -> QIf(/\ e.kind = "reset" /\ e.id = h.id /\ e.error = h.error
                                 /\ e.same, t, "reset received")
         [] h.k = "failure" -> QIf(e.kind = "failure" /\ e.e = "ngtcp2", t, "failure reported")

----------------------------------------------------------------------------
(* Packet protection *)

ProtCipher(s, op) == IF op \in {"in_encrypt", "in_decrypt", "in_mask"} THEN "50336513" ELSE s.cipher

OnProt(s, e) ==
  QYes([s EXCEPT !.prot = [on |-> TRUE, q |-> e, c |-> ProtCipher(s, e.op), done |-> FALSE,
                           r |-> FALSE, out |-> <<>>]])

OnAead(s, e) ==
  LET p == s.prot IN
  QIf(/\ p.on /\ ~p.done /\ p.c \in Ciphers
      /\ e.op = (IF p.q.op \in {"encrypt", "in_encrypt"} THEN "seal" ELSE "open")
      /\ e.aead = AeadOf(p.c) /\ e.key = p.q.key /\ e.nonce = p.q.nonce
      /\ e["in"] = p.q["in"] /\ e.ad = p.q.ad,
      [s EXCEPT !.prot.done = TRUE, !.prot.r = e.r, !.prot.out = e.out], "packet protection")

OnProtResult(s, e) ==
  LET p == s.prot IN
  QIf(IF p.done /\ p.r THEN e.r = Len(p.out) /\ e.out = p.out
      ELSE e.r < 0 /\ ~(/\ ~p.done /\ p.c \in Ciphers /\ Len(p.q.key) = KeySize(p.c)
                        /\ ~p.q.broken),
      [s EXCEPT !.prot = NoProt], "result of packet protection")

OnMaskTerm(s, e) ==
  LET p == s.prot IN
  IF ~(p.on /\ ~p.done /\ p.c \in Ciphers /\ e.key = p.q.key) THEN QNo("header protection")
  ELSE IF e.o = "uecb"
  THEN QIf(e.enc /\ AeadOf(p.c) # "chacha" /\ e["in"] = p.q.sample,
           [s EXCEPT !.prot.done = TRUE, !.prot.r = TRUE, !.prot.out = SubSeq(e.out, 1, 5)],
           "header protection")
  ELSE QIf(/\ AeadOf(p.c) = "chacha" /\ Len(e.stream) >= 5
           /\ e.counter = SubSeq(p.q.sample, 1, 4) /\ e.nonce = SubSeq(p.q.sample, 5, 16),
           [s EXCEPT !.prot.done = TRUE, !.prot.r = TRUE, !.prot.out = SubSeq(e.stream, 1, 5)],
           "header protection")

OnMaskResult(s, e) ==
  LET p == s.prot IN
  QIf(IF p.done THEN e.r >= 0 /\ e.out = p.out
      ELSE e.r < 0 /\ ~(p.c \in Ciphers /\ Len(p.q.key) = KeySize(p.c) /\ ~p.q.broken),
      [s EXCEPT !.prot = NoProt], "header protection mask")

----------------------------------------------------------------------------
(* Everything else *)

OnPreferred(s, e) ==
  LET n == Len(s.local)
      want == IF n = 4 THEN e.v4 ELSE e.v6 IN
  QIf(e.r = 0 /\ SubSeq(e.out, 1, n) = want /\ \A k \in n + 1..Len(e.out) : e.out[k] = 170,
      s, "preferred address")

OnLoss(s, e) ==
  QIf(s.ctx = "expire" /\ ~s.call.didloss /\ e.ts = Nano(s.now) /\ WLeq(s.call.loss, e.ts),
      [s EXCEPT !.call.didloss = TRUE, !.call.err = IF e.r THEN @ ELSE "ngtcp2"], "loss timer")
OnAckDelay(s, e) ==
  QIf(s.ctx = "expire" /\ ~s.call.didack /\ e.ts = Nano(s.now) /\ WLeq(s.call.ack, e.ts),
      [s EXCEPT !.call.didack = TRUE], "ack delay timer")
OnExpired(s, e) ==
  LET c == s.call IN
  QIf(/\ WLeq(c.loss, Nano(s.now)) => c.didloss
      /\ WLeq(c.ack, Nano(s.now)) /\ c.err = "" => c.didack
      /\ e.r = (IF c.err = "" THEN "ok" ELSE c.err),
      [s EXCEPT !.ctx = "none", !.call = NoCall], "expired timers")

Begin(s, ctx) == [s EXCEPT !.ctx = ctx, !.call = NoCall, !.hs.last = "none"]

(* Logging: with a logger, every text of the libraries is one message, in order;
   the transport's are traces, the TLS library's are errors. Long ones may be cut. *)

Limit(from) == IF from = "tls" THEN 99 ELSE 1023
LevelFrom(from) == IF from = "tls" THEN "error" ELSE "trace"

IsText(m, x) ==
  /\ m.lvl = LevelFrom(x.from)
  /\ IF Len(x.d) <= Limit(x.from) THEN m.d = x.d
     ELSE Len(m.d) >= Limit(x.from) /\ IsPrefixOf(m.d, x.d)

RECURSIVE TextsIn(_, _, _, _)
\* Are the texts from j on among the messages from i on, in this order?
TextsIn(got, i, texts, j) ==
  IF j > Len(texts) THEN TRUE
  ELSE IF i > Len(got) THEN FALSE
  ELSE IF IsText(got[i], texts[j]) THEN TextsIn(got, i + 1, texts, j + 1)
  ELSE TextsIn(got, i + 1, texts, j)

OnLogged(s, e) ==
  IF ~e.on THEN QIf(e.got = <<>>, s, "messages without a logger")
  ELSE IF \E i \in DOMAIN e.got : ~e.got[i].place THEN QNo("a message from nowhere")
  ELSE IF ~TextsIn(e.got, 1, e.texts, 1) THEN QNo("a text is not logged as it is")
  ELSE QIf(\A i \in DOMAIN e.texts :
             Cardinality({j \in DOMAIN e.got : IsText(e.got[j], e.texts[i])})
               <= Cardinality({j \in DOMAIN e.texts : e.texts[j].d = e.texts[i].d}),
           s, "a text is logged twice")

OnQuic(s, e) ==
  CASE e.o = "uclock" -> QYes([s EXCEPT !.now = e.t])
    [] e.o = "uclient" -> QYes(QStart(e, s.now))
    [] e.o = "ulogged" -> OnLogged(s, e)
    [] ~s.alive -> QNo("no client")
    [] e.o = "unc" -> OnTransport(s, e)
    [] e.o = "ussl" -> OnSsl(s, e)
    [] e.o = "utp" -> QIf(s.ctx = "new" /\ e.right, [s EXCEPT !.tp = e.d], "local parameters")
    [] e.o = "uready" -> OnReady(s)
    [] e.o \in {"uextract", "uexpand"} -> OnTerm(s, e)
    [] e.o = "uinstall" -> OnInstall(s, e)
    [] e.o = "uhs" -> OnHs(s)
    [] e.o = "uhsr" -> OnHsResult(s, e)
    [] e.o = "usecrets" -> OnSecrets(s, e)
    [] e.o = "uoverhead" -> QIf(e.n = 16, IF s.sec.on THEN [s EXCEPT !.sec.over = TRUE] ELSE s,
                                "overhead of packet protection")
    [] e.o = "usecretsr" -> OnSecretsResult(s, e)
    [] e.o = "udata" -> OnHandshakeData(s, e)
    [] e.o = "usubmit" -> OnCryptoSubmit(s, e)
    [] e.o = "udatar" -> OnHandshakeDataResult(s, e)
    [] e.o = "ucbcrypto" -> OnCrypto(s, e)
    [] e.o = "uprovide" -> OnProvide(s, e)
    [] e.o = "upost" -> OnPost(s, e)
    [] e.o = "ucompleted" -> OnCompleted(s)
    [] e.o = "udtp" -> OnDecodeParams(s, e)
    [] e.o = "urtp" -> OnRemoteParams(s, e)
    [] e.o = "ucbcryptor" -> OnCryptoResult(s, e)
    [] e.o = "ucbkey" -> QYes([s EXCEPT !.key = [NoKey EXCEPT !.on = TRUE]])
    [] e.o = "ucbkeyr" -> OnKeyUpdateResult(s, e)
    [] e.o = "uadd" -> OnAdd(s, e)
    [] e.o = "uadderr" -> QIf(e.r = "not_implemented", s, "errors cannot be sent")
    [] e.o = "usend" -> QIf(s.ctx = "none", Begin(s, "send"), "send")
    [] e.o = "upkt" -> OnPacket(s, e)
    [] e.o = "uopen" -> OnOpen(s, e)
    [] e.o = "uwrite" -> OnWrite(s, e)
    [] e.o = "usent" -> OnSent(s, e)
    [] e.o = "ucback" -> OnAck(s, e)
    [] e.o = "ucbkack" -> OnCryptoAck(s, e)
    [] e.o = "uretx" -> OnRetransmit(s, e)
    [] e.o = "ukretx" -> OnCryptoRetransmit(s, e)
    [] e.o = "urecv" -> QIf(s.ctx = "none", [Begin(s, "recv") EXCEPT !.call.d = e.d], "recv")
    [] e.o = "uread" -> OnRead(s, e)
    [] e.o = "ureadr" -> QYes([s EXCEPT !.call.rv = e.r])
    [] e.o = "urecvd" -> OnReceived(s, e)
    [] e.o = "ucbdata" ->
         QYes([s EXCEPT !.evq = Append(@, [k |-> "data", id |-> e.id, fin |-> e.fin, d |-> e.d])])
    [] e.o = "ucbreset" ->
         QYes([s EXCEPT !.evq = Append(@, [k |-> "reset", id |-> e.id, error |-> e.error])])
    [] e.o = "uevent" -> OnEvent(s, e)
    [] e.o = "ucbnote" -> QIf(e.r = 0, s, "a notification is refused")
    [] e.o = "ucbpath" -> QIf((e.r = 0) = e.ok, s, "path validation")
    [] e.o = "ucbdead" -> QIf(e.r # 0, s, "accepted though not supported")
    [] e.o = "ucbinitial" -> QYes([s EXCEPT !.hs.last = "none"])
    [] e.o = "ucbinitialr" ->
         QIf(s.hs.last # "none" /\ (e.r = 0) = (s.hs.last # "err"), s, "start of the handshake")
    [] e.o = "ucb" -> QIf(s.ctx = "none", Begin(s, "cb"), "callback")
    [] e.o = "ucbr" -> QYes([s EXCEPT !.ctx = "none"])
    [] e.o \in {"uprot", "umask"} -> OnProt(s, e)
    [] e.o = "uaead" -> OnAead(s, e)
    [] e.o = "uprotr" -> OnProtResult(s, e)
    [] e.o \in {"uecb", "uchacha"} -> OnMaskTerm(s, e)
    [] e.o = "umaskr" -> OnMaskResult(s, e)
    [] e.o = "upref" -> OnPreferred(s, e)
    [] e.o = "ucid" -> QIf(e.r = 0 /\ e.len = e.n, s, "connection id")
    [] e.o = "utimers" -> QIf(e.timeout = Micro(e.idle) /\ e.expires = Micro(e.expiry), s, "timers")
    [] e.o = "uexpire" ->
         QIf(s.ctx = "none", [Begin(s, "expire") EXCEPT !.call.loss = e.loss, !.call.ack = e.ack],
             "expire")
    [] e.o = "uloss" -> OnLoss(s, e)
    [] e.o = "uackdelay" -> OnAckDelay(s, e)
    [] e.o = "uexpired" -> OnExpired(s, e)
    [] e.o = "umark" -> QYes([s EXCEPT !.marked = Quiet(s)])
    [] e.o = "ustat" -> QIf(s.marked /\ Quiet(s) => e.arrays <= 0, s, "memory is kept")

=============================================================================
