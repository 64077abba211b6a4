-------------------------------- MODULE Trace --------------------------------
(* Is every trace recorded from the implementation a behaviour of the
   specification? The file named by the environment variable TRACES holds one
   JSON object per line: {"id": ..., "ev": [events]}. Every trace is one initial
   state; each step consumes one event. A rejected event is printed and its trace
   ends in the state "rejected". *)
EXTENDS Connection, Buffers, Qif, Log, Values, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, st
vars == <<t, l, st>>

CodecOps == {"dec", "venc", "fenc", "feq", "penc", "henc", "lenc", "qdb",
             "qifenc", "qifdec", "qifenv", "qiflong", "qifbulk"}

JudgeCodec(e) ==
  CASE e.o = "dec" -> JudgeDecode(e)
    [] e.o = "venc" -> JudgeVarint(e)
    [] e.o = "fenc" -> JudgeFrame(e)
    [] e.o = "feq" -> JudgeFrameEq(e)
    [] e.o = "penc" -> JudgePrefixInt(e)
    [] e.o = "henc" -> JudgeHuffman(e)
    [] e.o = "lenc" -> JudgeLiteral(e)
    [] e.o = "qdb" -> JudgeBlock(e)
    [] e.o = "qifenc" -> JudgeQifEncode(e)
    [] e.o = "qifdec" -> JudgeQifDecode(e)
    [] e.o = "qifenv" -> JudgeQifEnv(e)
    [] e.o = "qiflong" -> JudgeQifLong(e)
    [] e.o = "qifbulk" -> JudgeQifBulk(e)

ValueOps == {"vaddr", "vpath", "vhost", "vview", "vheader", "vevent", "vhevent"}

JudgeValue(e) ==
  CASE e.o = "vaddr" -> JudgeAddress(e)
    [] e.o = "vpath" -> JudgePath(e)
    [] e.o = "vhost" -> JudgeHost(e)
    [] e.o = "vview" -> JudgeView(e)
    [] e.o = "vheader" -> JudgeHeaderValue(e)
    [] e.o = "vevent" -> JudgeEventValue(e)
    [] e.o = "vhevent" -> JudgeHttpEvent(e)

Judged(why, s) == IF why = "" THEN Yes(s) ELSE No(why)

BufferOps == {"bnew", "bslice", "bself", "bconsume", "bmove", "bdrop", "bconcat",
              "bwrite", "beq", "blook"}
ChainOps == {"spush", "spop", "sfront", "sback", "sslice", "sconsume", "smove",
             "slook", "sdec"}

OnBuffers(s, e) ==
  LET r == CASE e.o \in BufferOps -> OnBuffer(s.b, e)
             [] e.o \in ChainOps -> OnChain(s.b, e)
             [] e.o = "qe" -> OnQpackEncode(s.b, e)
             [] e.o = "qd" -> OnQpackDecode(s.b, e)
  IN [r EXCEPT !.st = [s EXCEPT !.b = r.st]]

OnConnections(c, e) ==
  CASE e.o \in {"client", "server"} -> OnConn(c, e, e.o)
    [] e.o = "cdel" -> OnDelete(c, e)
    [] e.o = "cmove" -> OnMove(c, e)
    [] e.o = "request" -> OnRequest(c, e)
    [] e.o = "response" -> OnResponse(c, e)
    [] e.o = "hnew" -> OnHandleNew(c, e)
    [] e.o = "hdrop" -> OnHandleDrop(c, e)
    [] e.o = "hmove" -> OnHandleMove(c, e)
    [] e.o = "hid" -> OnHandleId(c, e)
    [] e.o \in {"header", "body", "start", "fin"} -> OnSubmit(c, e)
    [] e.o = "send" -> OnSend(c, e)
    [] e.o = "recv" -> OnRecv(c, e)
    [] e.o = "next" -> OnNext(c, e)
    [] e.o = "rerr" -> OnQuicError(c, e)

\* Does the event have the fields that its result comes with?
WellFormed(e) ==
  LET has(fs) == fs \subseteq DOMAIN e
      r == IF has({"r"}) THEN e.r ELSE ""
  IN
  CASE e.o = "send" -> has({"r"}) /\ (r = "ok" => has({"id", "fin", "d"}))
    [] e.o = "next" -> /\ has({"r"})
                       /\ r = "header" => has({"id", "fin", "n", "v"})
                       /\ r = "body" => has({"id", "fin", "d"})
                       /\ r = "finished" => has({"id"})
                       /\ r = "settings" => has({"s"})
                       /\ r = "err" => has({"e"})
    [] e.o = "request" -> has({"r"}) /\ (r = "ok" => has({"id"}))
    [] e.o = "response" -> has({"r"}) /\ (r = "ok" => has({"hid"}))
    [] e.o \in {"dec", "sdec"} ->
         /\ has({"r"})
         /\ r = "ok" /\ e.what = "frame" => has({"t", "f"})
         /\ r = "ok" /\ e.what = "peek" => has({"t"})
         /\ r = "ok" /\ e.what \notin {"frame", "peek"} => has({"v"})
    [] e.o = "qd" -> has({"r", "count", "rest"}) /\ (r = "ok" => has({"n", "v"}))
    [] e.o \in {"recv", "rerr", "header", "body", "start", "fin"} -> has({"r"})
    [] OTHER -> TRUE

\* [ok, st, why]
Plain(s, e) ==
  IF e.o \in {"crash", "hang"} THEN No("the program does not survive: " \o e.o)
  ELSE IF "r" \in DOMAIN e /\ e.r = "exception" THEN No("an exception")
  ELSE IF ~WellFormed(e) THEN No("not a proper result")
  ELSE IF e.o \in CodecOps
  THEN Judged(JudgeCodec(e), s)
  ELSE IF e.o \in ValueOps THEN Judged(JudgeValue(e), s)
  ELSE IF e.o = "verrs"
  THEN Judged(JudgeErrors(s.errs, e), [s EXCEPT !.errs = @ \cup {<<e.domain, e.category>>}])
  ELSE IF e.o = "lset" THEN Yes([s EXCEPT !.logger = e.k])
  ELSE IF e.o = "lmsg" THEN Judged(JudgeMessage(s.logger, e), s)
  ELSE IF e.o = "lgot"
  THEN IF e.none # <<>> THEN No("messages without a logger")
       ELSE IF \E i \in DOMAIN e.got : ~ValidMessage(e.got[i]) THEN No("not a message") ELSE Yes(s)
  ELSE IF e.o \in BufferOps \cup ChainOps \cup {"qe", "qd"} THEN OnBuffers(s, e)
  ELSE IF e.o = "end"
  THEN IF e.arrays = 0 /\ e.objects = 0 THEN Yes(s) ELSE No("memory was not released")
  ELSE LET r == OnConnections(s.c, e) IN [r EXCEPT !.st = [s EXCEPT !.c = r.st]]

\* A twin is what happened without and with a logger.
Step(s, e) ==
  IF e.o # "twin" THEN Plain(s, e)
  ELSE IF e.a # e.b THEN No("a logger changes what happens")
  ELSE Plain(s, e.a)

Start == [b |-> InitBuffers, c |-> InitConns, logger |-> "none", errs |-> {}]

Init == /\ t \in 1..Len(Traces)
        /\ l = 0
        /\ st = Start

Next == /\ l >= 0
        /\ l < Len(Traces[t].ev)
        /\ \E r \in {Step(st, Traces[t].ev[l + 1])} :
             IF r.ok
             THEN l' = l + 1 /\ st' = r.st
             ELSE /\ PrintT(<<"REJECTED", Traces[t].id, l + 1, r.why>>)
                  /\ l' = -1
                  /\ st' = Start
        /\ t' = t

Spec == Init /\ [][Next]_vars

View == <<t, l>>

=============================================================================
