----------------------------- MODULE MC_Chains -----------------------------
(* Chains of buffers: a byte string arrives in pieces of every size, and is
   looked at, consumed, sliced and decoded at any time. Whatever is taken out, in
   whatever way, is what went in, in order; what is decoded does not depend on
   the pieces. *)
EXTENDS Buffers, Json

CONSTANTS What,      \* what is decoded: "frame", "varint", "pint", "lit"
          P,
          Use,       \* items (of the table below) that are used
          N,         \* number of items
          Ops,       \* other operations: "slice", "consume", "pop"
          K,         \* how many of them
          Scripts

ItemsOf ==
  [varint |-> << <<5>>, <<64, 5>>, <<128, 0, 1, 2>>, <<255, 1, 2, 3, 4, 5, 6, 7>> >>,
   pint |-> << <<3>>, <<31, 5>>, <<31, 255, 1>>, <<255, 128, 0>> >>,
   lit |-> << <<0>>, <<2, 9, 8>>, <<131, 241, 227, 255>>, <<7, 1, 1, 2, 3, 4, 5, 6, 7, 8>> >>,
   frame |-> << <<0, 3>>, <<33, 2, 7, 1>>, <<64, 33, 0>>, <<4, 2, 6, 9>>,
                <<2, 4, 0, 1, 1, 9>>, <<5, 3, 0>>, <<7, 64, 2, 64, 9>>, <<13, 2, 5, 5>> >>]

Items == ItemsOf[What]

VARIABLES in,        \* the whole string
          items,     \* how many items are in it
          closed,    \* it is complete
          pos,       \* bytes that were pushed
          c,         \* the chain
          out,       \* bytes that were taken out
          got,       \* what was decoded
          left, hist
vars == <<in, items, closed, pos, c, out, got, left, hist>>

Decode(s) ==
  IF What = "frame"
  THEN LET d == FrameDecode(s, 1, Len(s)) IN
       [r |-> d.r, v |-> IF d.r = "ok" THEN d.v ELSE <<>>, n |-> d.skipped + d.n]
  ELSE DecodeOf([what |-> What, p |-> P, skip |-> 0, in |-> s])

RECURSIVE All(_)
\* Everything that can be decoded from s, until there is no more.
All(s) == LET d == Decode(s) IN
          IF d.r # "ok" THEN <<>> ELSE <<d.v>> \o All(From(s, d.n + 1))

Log(e) == hist' = IF Scripts THEN Append(hist, e) ELSE hist

Init == /\ in = <<>> /\ items = 0 /\ closed = FALSE /\ pos = 0 /\ c = <<>> /\ out = <<>>
        /\ got = <<>> /\ left = K /\ hist = <<>>

Extend == /\ ~closed /\ items < N
          /\ \E k \in Use : in' = in \o Items[k]
          /\ items' = items + 1
          /\ UNCHANGED <<closed, pos, c, out, got, left, hist>>
Close == /\ ~closed /\ items = N /\ closed' = TRUE
         /\ UNCHANGED <<in, items, pos, c, out, got, left, hist>>

Push == /\ closed
        /\ \E n \in 0..(Len(in) - pos) :
             /\ n = 0 => left > 0
             /\ left' = IF n = 0 THEN left - 1 ELSE left
             /\ LET d == SubSeq(in, pos + 1, pos + n) IN
                c' = Append(c, d) /\ Log(<<"push", d>>)
             /\ pos' = pos + n
        /\ UNCHANGED <<in, items, closed, out, got>>

Take(n) == out' = out \o SubSeq(Flat(c), 1, n) /\ c' = DropBytes(c, n)

DecodeOne ==
  /\ closed /\ c # <<>>
  /\ LET d == Decode(Flat(c)) IN
     /\ d.r = "ok" \/ d.n > 0 \/ (Scripts /\ hist[Len(hist)][1] # "dec")
     /\ Take(d.n)
     /\ got' = IF d.r = "ok" THEN Append(got, d.v) ELSE got
  /\ Log(<<"dec">>)
  /\ UNCHANGED <<in, items, closed, pos, left>>

Other ==
  /\ closed /\ left > 0 /\ Flat(c) # <<>>
  /\ \/ \E o \in Ops \cap {"slice", "consume"}, n \in 1..Len(Flat(c)) : Take(n) /\ Log(<<o, n>>)
     \/ /\ "pop" \in Ops
        /\ \E d \in {Head(c), Head(FirstFull(c))} :
             PopOf(c, d).ok /\ c' = PopOf(c, d).c /\ out' = out \o d
        /\ Log(<<"pop">>)
  /\ left' = left - 1
  /\ UNCHANGED <<in, items, closed, pos, got>>

Next == Extend \/ Close \/ Push \/ DecodeOne \/ Other
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------

\* Nothing is lost, doubled or reordered.
Conserved == closed => out \o Flat(c) = SubSeq(in, 1, pos)

\* Unless something else was taken out, the pieces make no difference.
Same == (closed /\ (left = K \/ Ops = {})) => IsPrefixOf(got, All(in))
Everything ==
  (closed /\ Ops = {} /\ pos = Len(in) /\ Decode(Flat(c)).r = "incomplete") => got = All(in)

Over == closed /\ pos = Len(in) /\ (c = <<>> \/ Decode(Flat(c)).r # "ok")
Show == (Scripts /\ Over) => PrintT("SCRIPT " \o ToJson(hist))

=============================================================================
