-------------------------------- MODULE MC_Keys --------------------------------
(* A bounded model of the handshake and the keys of the QUIC client: a client that
   makes any calls that module Quic allows, a TLS library that hands out secrets and
   handshake data, a transport library that is given keys, handshake data and the
   peer's parameters, and a peer that derives its own keys from the same secrets.
   It checks that what module Quic demands of the implementation implies what users
   rely on: both sides use the same keys for the same purpose, at every level and
   after every update; the handshake data reaches the transport exactly, at its
   level, and is kept until it is acknowledged; the handshake is complete if and
   only if TLS says so, with all keys and the peer's parameters in place; and what
   fails is told.

   Cryptography is symbolic: the outcome of a derivation is its name, padded to its
   size; different derivations have different names. The client may also make wrong
   derivations, mix up keys, and skip steps: module Quic has to reject these.

   A simulation of the model (-simulate) prints behaviours as scripts for the
   driver. *)
EXTENDS Quic, Json

CONSTANTS Suites,       \* cipher suites that may be negotiated
          Wrong,        \* wrong derivations the client may make
          Failures,     \* calls into the libraries that may fail
          Refreshes,      \* key updates
          Extra,        \* additional pieces of handshake data
          Early,        \* there may be secrets for early data
          Acks,         \* acknowledgements of handshake data
          Scripts       \* print scripts

VARIABLES st,       \* the state of module Quic
          call,     \* what the client is being asked for: "new", "hello", "crypto", "key", "idle"
          did,      \* what it has done in this call
          todo,     \* derivations that are needed
          inner,    \* the callback of the TLS library: "none", "tls", "secrets", "data"
          ph,       \* how far the TLS library is
          items,    \* what the TLS library has handed out in this call
          suite,
          keys,     \* kind -> keys that the transport has
          gen,      \* number of key updates
          sent,     \* level -> handshake data that the transport has
          made,     \* level -> handshake data that TLS has made
          acked,    \* level -> how much of it was acknowledged
          params,   \* the peer's parameters as the transport knows them
          failed, told, extra, wrong, failures, acks, hist
vars == <<st, call, did, todo, inner, ph, items, suite, keys, gen, sent, made, acked, params,
          failed, told, extra, wrong, failures, acks, hist>>
View == <<st, call, did, todo, inner, ph, items, suite, keys, gen, sent, made, acked, params,
          failed, told, extra, wrong, failures, acks>>

Log(op) == IF Scripts THEN Append(hist, op) ELSE hist
Allowed(r) == IF r.ok THEN r.st ELSE Assert(FALSE, r.why)
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

----------------------------------------------------------------------------
(* Names *)

Pad(name, n) == [k \in 1..n |-> IF k = 1 THEN name ELSE ""]

Labels == {"client", "server", "key", "iv", "hp", "update"}
LabelOf(l) == CASE l = "client" -> LClient [] l = "server" -> LServer [] l = "key" -> LKey
                [] l = "iv" -> LIv [] l = "hp" -> LHp [] l = "update" -> LUpdate

Expand(md, prk, label, n) ==
  Pad("x(" \o md \o " " \o prk[1] \o " " \o label \o " " \o ToString(n) \o ")", n)

Dcid == Pad("dcid", 8)
Extracted == Pad("extracted", 32)
SecretSize == IF suite = "50336514" THEN 48 ELSE 32
Secret(name) == Pad(name, SecretSize)
PeerParams == Pad("peer parameters", 2)

Triple(md, secret, n) ==
  [key |-> Expand(md, secret, "key", n), iv |-> Expand(md, secret, "iv", IvSize),
   hp |-> Expand(md, secret, "hp", n)]
Of(name) == Triple(MdOf(suite), Secret(name), KeySize(suite))

RECURSIVE Updated(_, _)
Updated(name, n) ==
  IF n = 0 THEN Secret(name)
  ELSE Expand(MdOf(suite), Updated(name, n - 1), "update", SecretSize)
After(name, n) == [Triple(MdOf(suite), Updated(name, n), KeySize(suite)) EXCEPT !.hp = Of(name).hp]

\* What the other side uses, derived from what it knows.
Peer(kind) ==
  CASE kind = "initial tx" -> Triple("sha256", Expand("sha256", Extracted, "client", 32), 16)
    [] kind = "initial rx" -> Triple("sha256", Expand("sha256", Extracted, "server", 32), 16)
    [] kind = "early" -> Of("early")
    [] kind = "handshake tx" -> Of("client handshake")
    [] kind = "handshake rx" -> Of("server handshake")
    [] kind = "tx" -> After("client application", gen)
    [] kind = "rx" -> After("server application", gen)
    [] kind = "update tx" -> After("client application", gen + 1)
    [] kind = "update rx" -> After("server application", gen + 1)

D(md, prk, label, n) == [md |-> md, prk |-> prk, label |-> label, n |-> n]
ForKeys(md, secret, n) ==
  <<D(md, secret, "key", n), D(md, secret, "iv", IvSize), D(md, secret, "hp", n)>>

ForNew ==
  LET c == Expand("sha256", Extracted, "client", 32)
      s == Expand("sha256", Extracted, "server", 32)
  IN <<D("sha256", Extracted, "client", 32)>> \o ForKeys("sha256", c, 16)
     \o <<D("sha256", Extracted, "server", 32)>> \o ForKeys("sha256", s, 16)

Reading(level) == IF level = "handshake" THEN "server handshake" ELSE "server application"
Writing(level) == CASE level = "early" -> "early" [] level = "handshake" -> "client handshake"
                    [] level = "application" -> "client application"
ForSecrets(level) ==
  ForKeys(MdOf(suite), Secret(Writing(level)), KeySize(suite))
  \o (IF level = "early" THEN <<>> ELSE ForKeys(MdOf(suite), Secret(Reading(level)), KeySize(suite)))

ForUpdate ==
  LET one(name) ==
        <<D(MdOf(suite), Updated(name, gen), "update", SecretSize),
          D(MdOf(suite), Updated(name, gen + 1), "key", KeySize(suite)),
          D(MdOf(suite), Updated(name, gen + 1), "iv", IvSize)>>
  IN one("client application") \o one("server application")

----------------------------------------------------------------------------

Here == [host |-> <<>>, local |-> <<1>>, peer |-> <<2>>, params |-> <<>>]
Made == [QStart(Here, Wide0) EXCEPT !.dcid = Dcid,
                                    !.ssl = {"alpn", "client", "min", "max", "host", "tp"}]
Extract == [o |-> "uextract", md |-> "sha256", secret |-> Dcid, salt |-> InitialSalt,
            out |-> Extracted, r |-> TRUE]

Levels == {"initial", "handshake"}
Init ==
  /\ st = Allowed(OnTerm(Made, Extract))
  /\ call = "new" /\ did = {} /\ inner = "none" /\ items = {} /\ ph = "start"
  /\ suite \in Suites
  /\ todo = ForNew
  /\ keys = <<>> /\ gen = 0 /\ params = <<>>
  /\ sent = [l \in Levels |-> <<>>] /\ made = [l \in Levels |-> <<>>]
  /\ acked = [l \in Levels |-> 0]
  /\ failed = FALSE /\ told = FALSE
  /\ extra = Extra /\ wrong = Wrong /\ failures = Failures /\ acks = Acks
  /\ hist = IF Scripts THEN <<<<"suite", suite>>>> ELSE <<>>

----------------------------------------------------------------------------
(* The client derives and installs keys. *)

Deriving == (call = "new" \/ inner = "secrets" \/ call = "key") /\ todo # <<>>
Term(d, r) == [o |-> "uexpand", md |-> d.md, prk |-> d.prk, info |-> HkdfLabel(LabelOf(d.label), d.n),
               out |-> Expand(d.md, d.prk, d.label, d.n), r |-> r]

Derive ==
  /\ Deriving
  /\ st' = Allowed(OnTerm(st, Term(Head(todo), TRUE)))
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<call, did, inner, ph, items, suite, keys, gen, sent, made, acked, params,
                 failed, told, extra, wrong, failures, acks, hist>>

Outputs == {t.out : t \in st.terms}
Secrets == ((IF st.sec.on THEN {st.sec.rd, st.sec.wr} ELSE {})
           \cup (IF st.key.on THEN {st.tx, st.rx} ELSE {}) \cup {Dcid}) \ {<<>>}

\* One thing is wrong about it.
Near(d) ==
  {[d EXCEPT !.md = IF @ = "sha256" THEN "sha384" ELSE "sha256"]}
  \cup {[d EXCEPT !.prk = p] : p \in (Outputs \cup Secrets) \ {d.prk}}
  \cup {[d EXCEPT !.label = l] : l \in Labels \ {d.label}}
  \cup {[d EXCEPT !.n = n] : n \in {12, 16, 32, 48} \ {d.n}}

DeriveWrong ==
  /\ Deriving /\ wrong > 0
  /\ \E d \in Near(Head(todo)) : st' = Allowed(OnTerm(st, Term(d, TRUE)))
  /\ wrong' = wrong - 1
  /\ UNCHANGED <<call, did, todo, inner, ph, items, suite, keys, gen, sent, made, acked, params,
                 failed, told, extra, failures, acks, hist>>

DeriveFails ==
  /\ Deriving /\ failures > 0 /\ call # "new"
  /\ st' = Allowed(OnTerm(st, Term(Head(todo), FALSE)))
  /\ todo' = <<>> /\ failures' = failures - 1 /\ failed' = TRUE
  /\ hist' = Log(<<"fail", "expand">>)
  /\ UNCHANGED <<call, did, inner, ph, items, suite, keys, gen, sent, made, acked, params,
                 told, extra, wrong, acks>>

Kinds == CASE call = "new" -> {"initial tx", "initial rx"}
           [] inner = "secrets" -> {"early", "handshake tx", "handshake rx", "tx", "rx"}
           [] call = "key" -> {"update tx", "update rx"}
           [] OTHER -> {}
Twin(kind) == CASE kind = "initial tx" -> "initial rx" [] kind = "initial rx" -> "initial tx"
                [] kind = "handshake tx" -> "handshake rx" [] kind = "handshake rx" -> "handshake tx"
                [] kind = "tx" -> "rx" [] kind = "rx" -> "tx" [] kind = "early" -> "handshake tx"
                [] kind = "update tx" -> "update rx" [] kind = "update rx" -> "update tx"
Old(kind) == CASE kind = "update tx" -> {Peer("tx")} [] kind = "update rx" -> {Peer("rx")} [] OTHER -> {}

Candidates(kind) ==
  LET e == Peer(kind) IN
  {e, Peer(Twin(kind))} \cup Old(kind)
  \cup {[e EXCEPT !.key = x] : x \in Outputs} \cup {[e EXCEPT !.iv = x] : x \in Outputs}
  \cup {[e EXCEPT !.hp = x] : x \in Outputs}

KindOf(kind) == CASE kind = "update tx" -> "tx" [] kind = "update rx" -> "rx" [] OTHER -> kind

Install ==
  \E kind \in Kinds : \E k \in Candidates(kind) :
    LET r == OnInstall(st, k @@ [kind |-> kind, r |-> TRUE])
        \* an update leaves the keys for header protection alone
        new == IF kind = KindOf(kind) THEN k ELSE [k EXCEPT !.hp = keys[KindOf(kind)].hp]
    IN
    /\ r.ok /\ st' = r.st
    /\ keys' = Put(keys, KindOf(kind), new)
    /\ UNCHANGED <<call, did, todo, inner, ph, items, suite, gen, sent, made, acked, params,
                   failed, told, extra, wrong, failures, acks, hist>>

InstallFails ==
  /\ failures > 0 /\ call # "new"
  /\ \E kind \in Kinds :
       LET r == OnInstall(st, Peer(kind) @@ [kind |-> kind, r |-> FALSE]) IN r.ok /\ st' = r.st
  /\ todo' = <<>> /\ failures' = failures - 1 /\ failed' = TRUE
  /\ hist' = Log(<<"fail", "install">>)
  /\ UNCHANGED <<call, did, inner, ph, items, suite, keys, gen, sent, made, acked, params,
                 told, extra, wrong, acks>>

Ready ==
  /\ call = "new"
  /\ LET r == OnReady(st) IN r.ok /\ st' = r.st
  /\ call' = "idle" /\ todo' = <<>>
  /\ UNCHANGED <<did, inner, ph, items, suite, keys, gen, sent, made, acked, params,
                 failed, told, extra, wrong, failures, acks, hist>>

----------------------------------------------------------------------------
(* The transport calls. *)

Idle == call = "idle" /\ ~told

CallHello ==
  /\ Idle /\ ph = "start"
  /\ call' = "hello" /\ did' = {} /\ items' = {}
  /\ st' = [Begin(st, "cb") EXCEPT !.hs.last = "none"]
  /\ hist' = Log(<<"hello">>)
  /\ UNCHANGED <<todo, inner, ph, suite, keys, gen, sent, made, acked, params, failed, told,
                 extra, wrong, failures, acks>>

HelloResult ==
  /\ call = "hello" /\ inner = "none" /\ st.hs.last # "none"
  /\ st' = [st EXCEPT !.ctx = "none"]
  /\ told' = (st.hs.last = "err")
  /\ call' = "idle"
  /\ UNCHANGED <<did, todo, inner, ph, items, suite, keys, gen, sent, made, acked, params,
                 failed, extra, wrong, failures, acks, hist>>

Fed == call = "hello" \/ st.cr.prov = "yes"
Incoming == Pad("incoming", 2)
LevelNow == CASE ph = "hello" -> "initial" [] ph = "hs" -> "handshake" [] ph = "done" -> "application"

CallCrypto ==
  /\ Idle /\ ph \in {"hello", "hs", "done"}
  /\ ph = "done" => extra > 0
  /\ extra' = IF ph = "done" THEN extra - 1 ELSE extra
  /\ call' = "crypto" /\ did' = {} /\ items' = {}
  /\ st' = Allowed(OnCrypto(Begin(st, "cb"), [level |-> LevelNow, d |-> Incoming]))
  /\ hist' = Log(<<"crypto", LevelNow>>)
  /\ UNCHANGED <<todo, inner, ph, suite, keys, gen, sent, made, acked, params, failed, told,
                 wrong, failures, acks>>

CallUpdate ==
  /\ Idle /\ ph = "done" /\ gen < Refreshes
  /\ call' = "key" /\ did' = {} /\ todo' = ForUpdate
  /\ st' = [Begin(st, "cb") EXCEPT !.key = [NoKey EXCEPT !.on = TRUE]]
  /\ hist' = Log(<<"update">>)
  /\ UNCHANGED <<inner, ph, items, suite, keys, gen, sent, made, acked, params, failed, told,
                 extra, wrong, failures, acks>>

UpdateResult ==
  /\ call = "key"
  /\ \E v \in {0, -1} :
       LET r == OnKeyUpdateResult(st, [r |-> v]) IN
       /\ r.ok /\ st' = [r.st EXCEPT !.ctx = "none"]
       /\ gen' = IF v = 0 THEN gen + 1 ELSE gen
       /\ told' = (v # 0)
  /\ call' = "idle" /\ todo' = <<>>
  /\ UNCHANGED <<did, inner, ph, items, suite, keys, sent, made, acked, params, failed,
                 extra, wrong, failures, acks, hist>>

\* Acknowledgements come one by one.
Acknowledge(l) ==
  /\ Idle /\ acks > 0 /\ acked[l] < Len(sent[l])
  /\ acks' = acks - 1
  /\ \E n \in {1, Len(sent[l]) - acked[l]} :
       /\ acked' = [acked EXCEPT ![l] = @ + n]
       /\ st' = Allowed(OnCryptoAck(st, [level |-> l, n |-> n, r |-> 0]))
       /\ hist' = Log(<<"ack", l, n>>)
  /\ UNCHANGED <<call, did, todo, inner, ph, items, suite, keys, gen, sent, made, params, failed,
                 told, extra, wrong, failures>>

----------------------------------------------------------------------------
(* The steps of the client in a call about handshake data, in any order *)

InCrypto == call = "crypto" /\ inner = "none"

Did(x) ==
  /\ x \notin did /\ did' = did \cup {x}
  /\ UNCHANGED <<call, todo, ph, items, suite, keys, gen, sent, made, acked, extra, wrong, acks>>

Provide(ok) ==
  /\ InCrypto /\ Did("provide")
  /\ LET r == OnProvide(st, [level |-> st.cr.level, d |-> st.cr.d, r |-> ok]) IN r.ok /\ st' = r.st
  /\ UNCHANGED <<inner, params, told>>

Post(ok) ==
  /\ InCrypto /\ Did("post")
  /\ LET r == OnPost(st, [r |-> ok]) IN r.ok /\ st' = r.st
  /\ UNCHANGED <<inner, params, told>>

Handshake ==
  /\ InCrypto \/ (call = "hello" /\ inner = "none")
  /\ Did(IF Fed THEN "handshake" ELSE "handshake without data")
  /\ LET r == OnHs(st) IN r.ok /\ st' = r.st
  /\ inner' = "tls"
  /\ UNCHANGED <<params, told, failed, failures, hist>>

Completed ==
  /\ InCrypto /\ Did("completed")
  /\ LET r == OnCompleted(st) IN r.ok /\ st' = r.st
  /\ UNCHANGED <<inner, params, told, failed, failures, hist>>

Decode(ok) ==
  /\ InCrypto /\ Did("decode")
  /\ LET r == OnDecodeParams(st, [right |-> TRUE, r |-> ok]) IN r.ok /\ st' = r.st
  /\ UNCHANGED <<inner, params, told>>

Remote(ok) ==
  /\ InCrypto /\ Did("remote")
  /\ \E d \in {PeerParams, <<>>, Incoming} :
       LET r == OnRemoteParams(st, [d |-> d, r |-> ok]) IN
       r.ok /\ st' = r.st /\ params' = IF ok THEN d ELSE params
  /\ UNCHANGED <<inner, told>>

Fallible(ok) == Provide(ok) \/ Post(ok) \/ Decode(ok) \/ Remote(ok)
NameNow == CASE "provide" \in did' \ did -> "provide" [] "post" \in did' \ did -> "post"
             [] "decode" \in did' \ did -> "dtp" [] OTHER -> "rtp"

Works == Fallible(TRUE) /\ UNCHANGED <<failed, failures, hist>>
Fails ==
  /\ failures > 0 /\ Fallible(FALSE)
  /\ failures' = failures - 1 /\ failed' = TRUE
  /\ hist' = Log(<<"fail", NameNow>>)

CryptoResult ==
  /\ InCrypto
  /\ \E v \in {0, ErrCrypto, -1} :
       LET r == OnCryptoResult(st, [r |-> v]) IN
       /\ r.ok /\ st' = [r.st EXCEPT !.ctx = "none"]
       /\ told' = (v # 0)
  /\ call' = "idle"
  /\ UNCHANGED <<did, todo, inner, ph, items, suite, keys, gen, sent, made, acked, params,
                 failed, extra, wrong, failures, acks, hist>>

----------------------------------------------------------------------------
(* The TLS library *)

GiveSecrets(level) ==
  /\ inner = "tls" /\ Fed /\ ~failed /\ level \notin items
  /\ CASE level = "early" -> call = "hello" /\ Early
       [] level = "handshake" -> ph = "hello"
       [] level = "application" -> ph = "hs" /\ "tx" \notin DOMAIN keys
  /\ \E c \in {suite} \cup (IF failures > 0 /\ level = "handshake" THEN {"0"} ELSE {}) :
       /\ st' = Allowed(OnSecrets(st, [cipher |-> c, level |-> level, wr |-> Secret(Writing(level)),
                                       rd |-> IF level = "early" THEN <<>> ELSE Secret(Reading(level))]))
       /\ todo' = IF c = "0" THEN <<>> ELSE ForSecrets(level)
       /\ failed' = (c = "0")
       /\ failures' = IF c = "0" THEN failures - 1 ELSE failures
       /\ hist' = Log(<<"secrets", level, c>>)
  /\ items' = items \cup {level}
  /\ inner' = "secrets"
  /\ UNCHANGED <<call, did, ph, suite, keys, gen, sent, made, acked, params, told, extra, wrong, acks>>

Overhead ==
  /\ inner = "secrets" /\ ~st.sec.over
  /\ st' = [st EXCEPT !.sec.over = TRUE]
  /\ UNCHANGED <<call, did, todo, inner, ph, items, suite, keys, gen, sent, made, acked, params,
                 failed, told, extra, wrong, failures, acks, hist>>

SecretsResult ==
  /\ inner = "secrets"
  /\ \E v \in {0, 1} :
       LET r == OnSecretsResult(st, [r |-> v]) IN
       /\ r.ok /\ st' = r.st
       /\ items' = IF v = 0 THEN items \cup {"refused"} ELSE items
  /\ inner' = "tls" /\ todo' = <<>>
  /\ UNCHANGED <<call, did, ph, suite, keys, gen, sent, made, acked, params, failed, told,
                 extra, wrong, failures, acks, hist>>

DataLevel == IF ph \in {"start", "hello"} THEN "initial" ELSE "handshake"
Piece(l) == Pad(l \o " " \o ToString(Len(made[l])), IF made[l] = <<>> THEN 2 ELSE 1)

GiveData ==
  /\ inner = "tls" /\ Fed /\ "refused" \notin items
  /\ ph \in {"start", "hs"}
  /\ made[DataLevel] # <<>> => extra > 0
  /\ extra' = IF made[DataLevel] # <<>> THEN extra - 1 ELSE extra
  /\ items' = items \cup {"data"}
  /\ st' = Allowed(OnHandshakeData(st, [level |-> DataLevel, d |-> Piece(DataLevel)]))
  /\ made' = [made EXCEPT ![DataLevel] = @ \o Piece(DataLevel)]
  /\ inner' = "data"
  /\ hist' = Log(<<"data", DataLevel, Len(Piece(DataLevel))>>)
  /\ UNCHANGED <<call, did, todo, ph, suite, keys, gen, sent, acked, params, failed, told,
                 wrong, failures, acks>>

\* The client may try to submit something else, or at another level.
Submit(ok) ==
  /\ inner = "data"
  /\ \E l \in Levels : \E d \in {st.dat.d, <<>>, Tail(st.dat.d), st.dat.d \o st.dat.d} :
       LET r == OnCryptoSubmit(st, [level |-> l, d |-> d, r |-> ok]) IN
       /\ r.ok /\ st' = r.st
       /\ sent' = IF ok THEN [sent EXCEPT ![l] = @ \o d] ELSE sent
  /\ UNCHANGED <<call, did, todo, inner, ph, items, suite, keys, gen, made, acked, params, told,
                 extra, wrong, acks>>
Submits == Submit(TRUE) /\ UNCHANGED <<failed, failures, hist>>
SubmitFails == /\ failures > 0 /\ Submit(FALSE) /\ failed' = TRUE /\ failures' = failures - 1
               /\ hist' = Log(<<"fail", "submit">>)

DataResult ==
  /\ inner = "data"
  /\ \E v \in {0, 1} :
       LET r == OnHandshakeDataResult(st, [r |-> v]) IN
       /\ r.ok /\ st' = r.st
       /\ items' = IF v = 0 THEN items \cup {"refused"} ELSE items
  /\ inner' = "tls"
  /\ UNCHANGED <<call, did, todo, ph, suite, keys, gen, sent, made, acked, params, failed, told,
                 extra, wrong, failures, acks, hist>>

\* What the TLS library answers. Nobody else decides that the handshake is done.
Answer ==
  LET no == "refused" \in items
      full == ph = "done" \/ (ph = "hs" /\ Fed /\ "tx" \in DOMAIN keys /\ made["handshake"] # <<>>)
  IN
  /\ inner = "tls"
  /\ \E a \in {"want", "err", "done"} :
       /\ CASE a = "err" -> no \/ (failures > 0 /\ ~failed /\ Fed /\ ph # "done")
            [] a = "done" -> ~no /\ full
            [] a = "want" -> /\ ~no /\ ~full
                             /\ ph = "start" => made["initial"] # <<>>
                             \* it waits for more only so often
                             /\ ph \in {"hello", "hs"} /\ Fed => items # {} \/ extra > 0
       /\ st' = Allowed(OnHsResult(st, [a |-> a, tp |-> PeerParams]))
       /\ ph' = CASE a = "err" -> "broken" [] a = "done" -> "done"
                  [] a = "want" -> IF ph = "start" THEN "hello"
                                   ELSE IF "handshake" \in items THEN "hs" ELSE ph
       /\ extra' = IF a = "want" /\ items = {} /\ Fed THEN extra - 1 ELSE extra
       /\ failed' = (failed \/ a = "err")
       /\ failures' = IF a = "err" /\ ~no THEN failures - 1 ELSE failures
       /\ hist' = Log(<<a>>)
  /\ inner' = "none"
  /\ UNCHANGED <<call, did, todo, items, suite, keys, gen, sent, made, acked, params, told,
                 wrong, acks>>

Tls == \/ \E l \in {"early", "handshake", "application"} : GiveSecrets(l)
       \/ GiveData \/ Answer

----------------------------------------------------------------------------

Client == \/ Derive \/ Install \/ Ready \/ HelloResult \/ UpdateResult \/ Handshake \/ Works
          \/ Completed \/ CryptoResult \/ Overhead \/ SecretsResult \/ Submits \/ DataResult
Calls == CallHello \/ CallCrypto \/ CallUpdate
Broken == DeriveFails \/ InstallFails \/ Fails \/ SubmitFails
Over == call = "idle" /\ (told \/ (ph = "done" /\ extra = 0 /\ gen = Refreshes))
Rest == Over /\ UNCHANGED vars

Next == Client \/ Calls \/ Tls \/ Broken \/ DeriveWrong \/ (\E l \in Levels : Acknowledge(l)) \/ Rest

Fair == WF_vars(Client) /\ WF_vars(Tls) /\ WF_vars(Calls)
Spec == Init /\ [][Next]_vars /\ Fair

----------------------------------------------------------------------------
(* What is checked *)


\* C24: both sides have the same keys for the same purpose.
Agreement ==
  \A kind \in DOMAIN keys :
    \/ keys[kind] = Peer(kind)
    \* in an update, or after one that failed halfway
    \/ (call = "key" \/ told) /\ kind \in {"tx", "rx"} /\ keys[kind] = Peer("update " \o kind)

\* C24: a handshake that is complete has all keys, and the peer's parameters.
Whole ==
  st.completed /\ call = "idle" /\ ~told =>
    /\ {"initial tx", "initial rx", "handshake tx", "handshake rx", "tx", "rx"} \subseteq DOMAIN keys
    /\ params = PeerParams

\* C24: only TLS completes the handshake, and it always does.
OnlyTls == /\ st.completed => ph = "done"
           /\ ph = "done" /\ call = "idle" /\ ~told => st.completed

\* C24: keys come only with their secrets, early ones before the handshake.
InTime == "tx" \in DOMAIN keys => "handshake tx" \in DOMAIN keys

\* C24: handshake data gets through exactly, level by level, and is kept long enough.
Exact ==
  \A l \in Levels :
    /\ inner # "data" /\ ~failed => sent[l] = made[l]
    /\ IsPrefixOf(sent[l], made[l])
    /\ st.crypto[l] = From(sent[l], acked[l] + 1)

\* C24: what fails is told before the call is over.
Loud == failed /\ call = "idle" => told
Honest == told => failed

\* The client can always go on.
Complete == <>(told \/ (ph = "done" /\ st.completed /\ call = "idle"))
Ends == call # "idle" ~> call = "idle"
NoTrouble == <>(st.completed /\ gen = Refreshes /\ call = "idle" /\ ~told)

Show == (Scripts /\ Over) => PrintT("SCRIPT " \o ToJson([ops |-> hist]))

=============================================================================
