----------------------------- MODULE MC_Buffers -----------------------------
(* All short sequences of operations on a few buffers, in two models at once: the
   abstract one (module Buffers: a buffer is its bytes, independent of all other
   buffers) and the design that implements it: small contents are kept inline,
   large ones in counted allocations that the parts of a buffer share.

   The design must show the abstract contents, parts of an allocation that can be
   written must not overlap, and an allocation must live exactly as long as a
   buffer that refers to it.

   Sizes are in units: a behaviour is replayed with units of several bytes. *)
EXTENDS Buffers, Json

CONSTANTS Slots,     \* numbers of buffers
          Sizes,     \* of new buffers, in units
          Inline,    \* the largest size that is kept inline
          N,         \* number of operations
          Scripts

VARIABLES bufs,      \* abstract: slot -> bytes
          view,      \* design: slot -> [d] or [a, from, to]
          heap,      \* allocation -> [d, rc]
          ops, hist
vars == <<bufs, view, heap, ops, hist>>
View == <<bufs, view, heap, ops, hist>>

In(d) == [inline |-> TRUE, d |-> d, a |-> 0, from |-> 0, to |-> 0]
Out(a, from, to) == [inline |-> FALSE, d |-> <<>>, a |-> a, from |-> from, to |-> to]
Content(v, h) == IF v.inline THEN v.d ELSE SubSeq(h[v.a].d, v.from, v.to)
Size(v) == IF v.inline THEN Len(v.d) ELSE v.to - v.from + 1

Release(h, v) ==
  IF v.inline THEN h
  ELSE IF h[v.a].rc = 1 THEN [x \in DOMAIN h \ {v.a} |-> h[x]]
  ELSE [h EXCEPT ![v.a].rc = @ - 1]

\* Slot k becomes v (a reference that was counted already).
Become(vs, h, k, v) ==
  [view |-> (k :> v) @@ vs,
   heap |-> IF k \in DOMAIN vs THEN Release(h, vs[k]) ELSE h]

Fresh(d) == IF Len(d) <= Inline THEN [v |-> In(d), h |-> heap]
            ELSE LET a == ops + 1 IN
                 [v |-> Out(a, 1, Len(d)), h |-> (a :> [d |-> d, rc |-> 1]) @@ heap]

Bytes(n) == [k \in 1..n |-> 10 * ops + k]

Set(x) == view' = x.view /\ heap' = x.heap

\* What happens to the design.
New(k, d) == LET f == Fresh(d) IN Set(Become(view, f.h, k, f.v))

Consumed(v, n) == IF v.inline THEN In(From(v.d, n + 1)) ELSE Out(v.a, v.from + n, v.to)

Slice(k, s, n) ==
  LET v == view[s]
      part == IF v.inline \/ n <= Inline THEN In(SubSeq(Content(v, heap), 1, n))
              ELSE Out(v.a, v.from, v.from + n - 1)
      h == IF part.inline THEN heap ELSE [heap EXCEPT ![v.a].rc = @ + 1]
  IN Set(Become([view EXCEPT ![s] = Consumed(v, n)], h, k, part))

Move(k, s) ==
  IF k = s THEN UNCHANGED <<view, heap>>
  ELSE LET r == Become(view, heap, k, view[s]) IN
       view' = BDel(r.view, s) /\ heap' = r.heap

Drop(k) == view' = BDel(view, k) /\ heap' = Release(heap, view[k])

Write(k, i, x) ==
  LET v == view[k] IN
  IF v.inline THEN view' = [view EXCEPT ![k].d[i + 1] = x] /\ UNCHANGED heap
  ELSE heap' = [heap EXCEPT ![v.a].d[v.from + i] = x] /\ UNCHANGED view

Init == bufs = <<>> /\ view = <<>> /\ heap = <<>> /\ ops = 0 /\ hist = <<>>

Do(e) ==
  /\ bufs' = AfterBuffer(bufs, e)
  /\ hist' = IF Scripts THEN Append(hist, e) ELSE hist
  /\ CASE e.o = "bnew" -> New(e.d, e.in)
       [] e.o = "bslice" -> Slice(e.d, e.s, e.n)
       [] e.o = "bconsume" -> Set(Become(view, IF view[e.d].inline THEN heap ELSE
                                  [heap EXCEPT ![view[e.d].a].rc = @ + 1],
                                  e.d, Consumed(view[e.d], e.n)))
       [] e.o = "bmove" -> Move(e.d, e.s)
       [] e.o = "bdrop" -> Drop(e.d)
       [] e.o = "bconcat" -> New(e.d, Content(view[e.s], heap) \o Content(view[e.t], heap))
       [] e.o = "bwrite" -> Write(e.d, e.i, e.v)

Live == DOMAIN bufs

Event ==
  \/ \E d \in Slots, n \in Sizes : Do([o |-> "bnew", d |-> d, in |-> Bytes(n)])
  \/ \E s \in Live, d \in Slots : \E n \in 0..Len(bufs[s]) :
       Do([o |-> "bslice", d |-> d, s |-> s, n |-> n])
  \/ \E d \in Live : \E n \in 1..Len(bufs[d]) : Do([o |-> "bconsume", d |-> d, n |-> n])
  \/ \E s \in Live, d \in Slots : Do([o |-> "bmove", d |-> d, s |-> s])
  \/ \E d \in Live : Do([o |-> "bdrop", d |-> d])
  \/ \E s \in Live, t \in Live, d \in Slots :
       /\ s # t
       /\ Do([o |-> "bconcat", d |-> d, s |-> s, t |-> t])
  \/ \E d \in Live : \E i \in {0, Len(bufs[d]) - 1} :
       /\ bufs[d] # <<>>
       /\ Do([o |-> "bwrite", d |-> d, i |-> i, v |-> 200 + ops])

Next == ops < N /\ ops' = ops + 1 /\ Event
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------

\* The design shows the abstract contents.
Refines == /\ DOMAIN view = DOMAIN bufs
           /\ \A k \in DOMAIN view : Content(view[k], heap) = bufs[k]

\* An allocation lives exactly as long as it is referred to.
Counted ==
  \A a \in DOMAIN heap :
    heap[a].rc = Cardinality({k \in DOMAIN view : ~view[k].inline /\ view[k].a = a})
    /\ heap[a].rc > 0
Safe == \A k \in DOMAIN view : view[k].inline \/ view[k].a \in DOMAIN heap

\* No byte belongs to two buffers.
Disjoint ==
  \A j, k \in DOMAIN view :
    (j # k /\ ~view[j].inline /\ ~view[k].inline /\ view[j].a = view[k].a) =>
      \/ Size(view[j]) = 0 \/ Size(view[k]) = 0
      \/ view[j].to < view[k].from \/ view[k].to < view[j].from

Show == (Scripts /\ ops = N) => PrintT("SCRIPT " \o ToJson(hist))

=============================================================================
