------------------------------- MODULE MC_Recv -------------------------------
(* A bounded model of one receiver, checked exhaustively: every byte string that
   starts a sequence of up to N tokens, cut into chunks in every way, with events
   asked for at any time, with and without an end of the stream.

   Meaning(s, fin) says in one go, without any incremental state, what such a
   stream means. The incremental receiver of module Receiver, which judges the
   implementation, must always have an answer, never report anything that the
   whole stream does not mean, and have reported all of it when everything has
   arrived.

   A simulation of this model (-simulate) prints every complete behaviour as a
   script for the driver, so that the implementation is run on it. *)
EXTENDS Meaning, Json

CONSTANTS Kind,       \* "server" or "client": a request or response stream; or
                      \* "cserver", "cclient": the control stream they receive
          Use,        \* the tokens that are used
          N,          \* number of tokens in a stream
          Cut,        \* how many bytes may be missing at the end
          Scripts        \* print scripts

Control == Kind \in {"cserver", "cclient"}
Role == IF Kind \in {"server", "cserver"} THEN "server" ELSE "client"

\* :method GET; a literal a: b; Huffman-coded :authority "www"
Line1 == <<209>>
Line2 == <<33, 97, 1, 98>>
Block1 == <<0, 0>> \o Line1
Block2 == <<0, 0>> \o Line1 \o Line2

RequestTokens ==
  << <<1, 3>> \o Block1,
     <<1, 7>> \o Block2,
     <<0, 0>>,                       \* empty DATA
     <<0, 2, 8, 9>>,
     <<64, 0, 64, 1, 5>>,            \* DATA with long varints
     <<33, 2, 1, 9>>,                \* unknown, with a payload like a frame
     <<33, 0>>,
     <<1, 3, 0, 0, 128>>,            \* dynamic table
     <<1, 0>>,                       \* no header section
     <<1, 1, 0>>,                    \* truncated prefix
     <<1, 4, 0, 0, 33, 97>>,         \* truncated line
     <<1, 6, 0, 0, 33, 65, 1, 98>>,  \* uppercase name
     <<4, 0>>,                       \* SETTINGS
     <<13, 1, 5>>,                   \* MAX_PUSH_ID
     <<3, 2, 5, 5>>,                 \* malformed CANCEL_PUSH
     <<2, 4, 0, 1, 1, 9>>,           \* PRIORITY
     <<5, 3, 0, 0, 0>>,              \* PUSH_PROMISE
     <<14, 1, 0>> >>                 \* DUPLICATE_PUSH

ControlTokens ==
  << <<0>>, <<64, 0>>, <<1>>,        \* stream types
     <<4, 0>>,
     <<4, 2, 9, 5>>,
     <<4, 4, 1, 2, 33, 1>>,          \* a known and an unknown setting
     <<4, 1, 1>>,                    \* truncated settings
     <<33, 1, 4>>,
     <<7, 1, 0>>,                    \* GOAWAY
     <<13, 1, 5>>, <<3, 1, 0>>, <<13, 2, 5, 5>>,
     <<2, 4, 0, 1, 1, 9>>,
     <<1, 0>>, <<0, 1, 7>>, <<14, 1, 0>>, <<5, 1, 0>> >>

Tokens == IF Control THEN ControlTokens ELSE RequestTokens

VARIABLES in,      \* the bytes of the stream
          toks,    \* the tokens in it (to bound it)
          closed,  \* no more bytes will come
          fin,     \* it was ended (only request streams)
          pos,     \* bytes that arrived
          rc,      \* the receiver
          rep,     \* what was reported
          hist     \* the operations so far
vars == <<in, toks, closed, fin, pos, rc, rep, hist>>
View == <<in, closed, fin, pos, rc, rep>>

Meaning(s, f) ==
  IF Control
  THEN LET t == VarintDecode(s, 1, Len(s)) IN
       IF t.r # "ok" THEN Mean(NoRep, {"open"})
       ELSE IF t.v # Wide0 THEN Mean(NoRep, {"type"})
       ELSE ControlMeaning(Role, s, t.n + 1, "settings", NoRep)
  ELSE RequestMeaning(Role, s, 1, f, "headers", NoRep)

----------------------------------------------------------------------------
(* The incremental receiver *)

Errors == {"malformed_frame", "qpack_decompression_failed", "malformed_header",
           "wrong_stream", "unexpected_frame", "missing_settings", "not_implemented",
           "stream_type"}

\* Everything that the receiver could conceivably report.
Outcomes ==
  LET m == Meaning(in, fin).rep IN
  {[r |-> "none"], [r |-> "finished"]}
  \cup {[r |-> "err", e |-> x] : x \in Errors}
  \cup (IF Control THEN {[r |-> "settings", s |-> m.set[k]] : k \in DOMAIN m.set}
        ELSE {[r |-> "header", n |-> m.hs[k][1], v |-> m.hs[k][2], fin |-> f] :
                 k \in DOMAIN m.hs, f \in BOOLEAN}
             \cup {[r |-> "body", d |-> d, fin |-> f] : f \in BOOLEAN,
                     d \in {<<>>} \cup {SubSeq(rc.buf, i, Min2(i + l, Len(rc.buf))) :
                                         i \in DOMAIN rc.buf, l \in 0..1}})

Judge(e) == IF Control THEN ControlNext(rc, Role, e) ELSE RequestNext(rc, Role, e)

Report(e, ph) ==
  CASE e.r = "header" -> [rep EXCEPT !.hs = Append(@, <<e.n, e.v>>), !.hfin = e.fin]
    [] e.r = "body" -> [rep EXCEPT !.body = @ \o e.d, !.bfin = e.fin]
    [] e.r = "finished" -> [rep EXCEPT !.done = TRUE]
    [] e.r = "err" -> IF e.e = "not_implemented" /\ ph # "failed"
                      THEN [rep EXCEPT !.ni = @ + 1]
                      ELSE IF rep.err = "" THEN [rep EXCEPT !.err = e.e] ELSE rep
    [] e.r = "settings" -> [rep EXCEPT !.set = Append(@, e.s)]
    [] OTHER -> rep

Log(op) == IF Scripts THEN Append(hist, op) ELSE hist

Over == rc.ph \in {"done", "failed", "free"}

\* Nothing (more) is to be reported.
Nothing ==
  /\ closed
  /\ \/ Over
     \/ pos = Len(in) /\ (fin => rc.fin) /\ Judge([r |-> "none"]).ok

Init == /\ in = <<>> /\ toks = 0 /\ closed = FALSE /\ fin = FALSE /\ pos = 0
        /\ rc = Receiver(IF Control THEN "type" ELSE "headers")
        /\ rep = NoRep /\ hist = <<>>

\* The stream is determined first: tokens, the last of which may be cut short.
Extend == /\ ~closed /\ toks < N
          /\ \E k \in Use \cap DOMAIN Tokens : in' = in \o Tokens[k]
          /\ toks' = toks + 1
          /\ UNCHANGED <<closed, fin, pos, rc, rep, hist>>

Close == /\ ~closed
         /\ \E cut \in 0..Cut :
              /\ cut <= Len(in)
              /\ in' = SubSeq(in, 1, Len(in) - cut)
         /\ closed' = TRUE
         /\ fin' \in (IF Control THEN {FALSE} ELSE BOOLEAN)
         /\ UNCHANGED <<toks, pos, rc, rep, hist>>

Arrive == /\ closed /\ pos < Len(in) /\ ~Over
          /\ \E n \in {1, 2, Len(in) - pos}, sep \in BOOLEAN :
               LET last == pos + n = Len(in)
                   f == fin /\ last /\ ~sep
               IN
               /\ n <= Len(in) - pos
               /\ sep => fin /\ last           \* the end comes by itself
               /\ rc' = Receive(rc, SubSeq(in, pos + 1, pos + n), f)
               /\ pos' = pos + n
               /\ hist' = Log(<<"recv", SubSeq(in, pos + 1, pos + n), f>>)
          /\ UNCHANGED <<in, toks, closed, fin, rep>>

ArriveEnd == /\ closed /\ pos = Len(in) /\ fin /\ ~rc.fin /\ ~Over
             /\ rc' = Receive(rc, <<>>, TRUE)
             /\ hist' = Log(<<"recv", <<>>, TRUE>>)
             /\ UNCHANGED <<in, toks, closed, fin, pos, rep>>

Report1 == /\ closed /\ ~Over /\ ~(Scripts /\ Nothing)
           /\ \E e \in Outcomes :
                LET r == Judge(e) IN
                /\ r.ok
                /\ rc' = r.st
                /\ rep' = Report(e, r.st.ph)
           /\ hist' = Log(<<"next">>)
           /\ UNCHANGED <<in, toks, closed, fin, pos>>

\* Nothing is left to do.
Done == /\ Nothing /\ ~Scripts
        /\ UNCHANGED vars

Next == Extend \/ Close \/ Arrive \/ ArriveEnd \/ Report1 \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Arrive) /\ WF_vars(ArriveEnd) /\ WF_vars(Report1)

----------------------------------------------------------------------------
(* Complete behaviours, for the implementation to be run on *)

Show == (Scripts /\ Nothing) => PrintT("SCRIPT " \o ToJson([kind |-> Kind, ops |-> hist]))

----------------------------------------------------------------------------
(* What is checked *)

Arrived == SubSeq(in, 1, pos)
Errored == rep.err # ""
Ending == IF rc.ph = "free" THEN "free" ELSE IF rep.done THEN "finished"
          ELSE IF rep.err = "stream_type" \/ (Errored /\ rc.ph = "failed" /\ Control
                  /\ "type" \in Meaning(Arrived, FALSE).ends) THEN "type"
          ELSE IF Errored THEN rep.err ELSE "open"

\* There is always an answer.
Receptive == closed /\ ~Over => \E e \in Outcomes : Judge(e).ok

\* Nothing is reported that the bytes which arrived do not mean, no matter how
\* they were cut up.
Sound ==
  closed =>
  LET m == Meaning(Arrived, rc.fin).rep IN
  /\ IsPrefixOf(rep.hs, m.hs) /\ IsPrefixOf(rep.body, m.body) /\ IsPrefixOf(rep.set, m.set)
  /\ rep.hfin => m.hfin /\ rep.hs = m.hs
  /\ rep.body # <<>> => rep.hfin
  /\ rep.ni <= m.ni
  /\ rep.done => "finished" \in Meaning(Arrived, rc.fin).ends
  /\ rep.bfin => rep.body = m.body
  /\ rep.done /\ rep.body # <<>> => rep.bfin

\* When there is nothing more to report, everything was.
Complete ==
  Nothing =>
  LET m == Meaning(Arrived, rc.fin) IN
  /\ Ending \in m.ends
  /\ Ending \in {"open", "finished"} =>
       /\ rep.hs = m.rep.hs /\ rep.body = m.rep.body /\ rep.hfin = m.rep.hfin
       /\ rep.set = m.rep.set /\ rep.ni = m.rep.ni

\* The end of a legal stream is always reported.
Finishes == (closed /\ fin /\ "finished" \in Meaning(in, TRUE).ends) ~> rep.done

=============================================================================
