------------------------------- MODULE Buffers -------------------------------
(* Buffers (slot -> bytes) and chains of buffers (slot -> sequence of bytes).
   State: [bufs, chains, qenc, qdec]; qenc and qdec are the QPACK encoders and
   decoders, as [started, count]. *)
EXTENDS Codec

BPut(f, k, v) == (k :> v) @@ f
BDel(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
BGet(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default

InitBuffers == [bufs |-> <<>>, chains |-> <<>>, qenc |-> <<>>, qdec |-> <<>>]

BYes(st) == [ok |-> TRUE, st |-> st, why |-> ""]
BNo(why) == [ok |-> FALSE, st |-> <<>>, why |-> why]
BJudge(st, ok, why) == IF ok THEN BYes(st) ELSE BNo(why)

\* The observed contents of all buffers are those of the state.
SameBuffers(all, bufs) ==
  /\ Len(all) = Cardinality(DOMAIN bufs)
  /\ \A k \in DOMAIN all : /\ all[k][1] \in DOMAIN bufs
                           /\ all[k][2] = bufs[all[k][1]]
                           /\ all[k][3]

AfterBuffer(b, e) ==
  CASE e.o = "bnew" -> BPut(b, e.d, e.in)
    [] e.o = "bslice" -> BPut(BPut(b, e.s, From(b[e.s], e.n + 1)), e.d,
                              SubSeq(b[e.s], 1, e.n))
    [] e.o = "bself" -> BPut(b, e.d, SubSeq(b[e.s], 1, e.n))
    [] e.o = "bconsume" -> BPut(b, e.d, From(b[e.d], e.n + 1))
    [] e.o = "bmove" -> IF e.s = e.d THEN b
                        ELSE BPut(BDel(b, e.s), e.d, b[e.s])
    [] e.o = "bdrop" -> BDel(b, e.d)
    [] e.o = "bconcat" -> BPut(b, e.d, b[e.s] \o b[e.t])
    [] e.o = "bwrite" -> [b EXCEPT ![e.d][e.i + 1] = e.v]
    [] OTHER -> b

\* Reading through a look-ahead that was advanced by n1 and then n3 bytes, a
\* copy of it (made in between) advanced by n2, and a copy of that copy.
LookAhead(s, e) ==
  /\ e.l2 = From(s, e.n1 + e.n2 + 1) /\ e.c2 = e.n2
  /\ e.l3 = e.l2 /\ e.c3 = 0
  /\ e.l1 = From(s, e.n1 + e.n3 + 1) /\ e.c1 = e.n1 + e.n3
  /\ e.h = IF e.l1 = <<>> THEN -1 ELSE e.l1[1]

OnBuffer(st, e) ==
  LET b == AfterBuffer(st.bufs, e) IN
  IF e.o = "beq" /\ ~(/\ e.eq = (b[e.d] = b[e.s])
                      /\ e.ne = (b[e.d] # b[e.s])) THEN BNo("comparison")
  ELSE IF e.o = "blook" /\ ~(LookAhead(b[e.d], e) /\ e.e = (e.l1 = <<>>))
  THEN BNo("look-ahead")
  ELSE BJudge([st EXCEPT !.bufs = b], SameBuffers(e.all, b), "buffer contents")

----------------------------------------------------------------------------
(* Chains *)

Flat(c) == FlattenSeq(c)

RECURSIVE DropBytes(_, _)
DropBytes(c, n) ==
  IF n = 0 THEN c
  ELSE IF Len(Head(c)) <= n THEN DropBytes(Tail(c), n - Len(Head(c)))
  ELSE <<From(Head(c), n + 1)>> \o Tail(c)

RECURSIVE FirstFull(_)
\* Without the empty buffers in front.
FirstFull(c) == IF c # <<>> /\ Head(c) = <<>> THEN FirstFull(Tail(c)) ELSE c

RECURSIVE LastFull(_)
LastFull(c) == IF c # <<>> /\ Last(c) = <<>> THEN LastFull(Front(c)) ELSE c

\* Empty buffers at the front may or may not have been discarded.
PopOf(c, d) ==
  IF Head(c) = d THEN [ok |-> TRUE, c |-> Tail(c)]
  ELSE LET f == FirstFull(c) IN
       IF Head(f) = d THEN [ok |-> TRUE, c |-> Tail(f)] ELSE [ok |-> FALSE, c |-> c]

SameChain(e, c) == e.all = Flat(c) /\ e.z = Len(e.all) /\ e.e = (e.all = <<>>)

OnChain(st, e) ==
  LET c == BGet(st.chains, e.c, <<>>)
      set(x) == [st EXCEPT !.chains = BPut(@, e.c, x)]
      keep(ok, why) == BJudge(set(c), ok /\ SameChain(e, c), why)
      become(x, ok, why) == BJudge(set(x), ok /\ SameChain(e, x), why)
  IN
  CASE e.o = "spush" -> become(Append(c, e.in), TRUE, "push")
    [] e.o = "spop" -> LET p == PopOf(c, e.d) IN become(p.c, p.ok, "pop")
    [] e.o = "sfront" -> keep(PopOf(c, e.d).ok, "front")
    [] e.o = "sback" -> keep(Last(c) = e.d \/ Last(LastFull(c)) = e.d, "back")
    [] e.o = "sslice" -> become(DropBytes(c, e.n), e.d = SubSeq(Flat(c), 1, e.n), "slice")
    [] e.o = "sconsume" -> become(DropBytes(c, e.n), TRUE, "consume")
    [] e.o = "smove" -> BJudge([st EXCEPT !.chains = BPut(BPut(@, e.d, c), e.c, <<>>)],
                               e.dst = Flat(c) /\ SameChain(e, <<>>), "chain move")
    [] e.o = "slook" -> keep(LookAhead(Flat(c), e) /\ e.e1 = (e.l1 = <<>>), "chain look-ahead")
    [] e.o = "sdec" ->
         LET f == Flat(c) IN
         IF e.what = "frame"
         THEN LET d == FrameDecode(f, 1, Len(f)) IN
              become(DropBytes(c, d.skipped + d.n),
                     e.r = d.r /\ (d.r = "ok" => e.t = d.v.t /\ e.f = d.v.f),
                     "frame decode from a chain")
         ELSE IF e.what = "peek"
         THEN LET d == FramePeek(f, 1, Len(f)) IN
              keep(e.r = d.r /\ (d.r = "ok" => e.t = d.v), "peek into a chain")
         ELSE LET d == DecodeOf([what |-> e.what, p |-> e.p, skip |-> 0, in |-> f]) IN
              become(DropBytes(c, d.n), e.r = d.r /\ (d.r = "ok" => e.v = d.v),
                     "decode from a chain")

----------------------------------------------------------------------------
(* QPACK encoders and decoders *)

NewQpack == [started |-> FALSE, count |-> 0]

OnQpackEncode(st, e) ==
  LET q == BGet(st.qenc, e.q, NewQpack)
      pre == IF q.started THEN <<>> ELSE QpackPrefix
  IN IF HasUpper(e.n)
     THEN BJudge([st EXCEPT !.qenc = BPut(@, e.q, q)],
                 /\ e.sr = "malformed_header" /\ e.r = "malformed_header"
                 /\ e.d = <<>> /\ e.clean /\ e.count = q.count, "uppercase name")
     ELSE BJudge([st EXCEPT !.qenc =
                    BPut(@, e.q, [started |-> TRUE, count |-> q.count + Len(e.d)])],
                 /\ e.sr = "ok" /\ e.r = "ok" /\ e.clean
                 /\ e.size = Len(e.d) /\ e.count = q.count + Len(e.d)
                 /\ IsPrefixOf(pre, e.d)
                 /\ IsLineOf(From(e.d, Len(pre) + 1), <<e.n, e.v>>), "header encode")

OnQpackDecode(st, e) ==
  LET q == BGet(st.qdec, e.q, NewQpack)
      c0 == BGet(st.chains, e.c, <<>>)
      c == IF e.in = <<>> THEN c0 ELSE Append(c0, e.in)
      s == Flat(c)
      d == HeaderDecode(s, 1, Len(s), q.started)
      used == d.p + d.n
  IN BJudge([st EXCEPT !.chains = BPut(@, e.c, DropBytes(c, used)),
                       !.qdec = BPut(@, e.q, [started |-> q.started \/ d.p = 2,
                                              count |-> q.count + used])],
            /\ e.r = d.r
            /\ d.r = "ok" => <<e.n, e.v>> = d.v
            /\ e.count = q.count + used
            /\ e.rest = From(s, used + 1), "header decode")

=============================================================================
