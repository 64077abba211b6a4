------------------------------- MODULE Meaning -------------------------------
(* What a whole stream means, in one go and without any incremental state. *)
EXTENDS Receiver

NoRep == [hs |-> <<>>, hfin |-> FALSE, body |-> <<>>, bfin |-> FALSE, done |-> FALSE,
          err |-> "", ni |-> 0, set |-> <<>>]

----------------------------------------------------------------------------
(* The meaning of a whole stream: what is to be reported (as in rep), and the
   set of ways that the reports may end: "open" (more may come), "finished",
   "free" (unspecified from here on), or an error. *)

Mean(rep0, ends) == [rep |-> rep0, ends |-> ends]
EndOf(f) == IF f THEN "malformed_frame" ELSE "open"

RECURSIVE RequestMeaning(_, _, _, _, _, _)
RequestMeaning(role, s, i, f, ph, m) ==
  LET n == Len(s)
      x == FrameAt(s, i, n)
      early == IF Known(x.t) THEN EarlyErrors(RequestFrameError(role, ph, x.t)) ELSE {}
      err == IF Known(x.t) THEN RequestFrameError(role, ph, x.t) ELSE ""
      p == i + x.n                             \* the payload of HEADERS and DATA
      size == IF x.r = "ok" THEN IntOf(x.v.f[1]) ELSE 0
      q == Min2(p + size, n + 1)               \* after what there is of it
      whole == q = p + size
  IN
  IF i = n + 1
  THEN Mean(m, {IF ~f THEN "open" ELSE IF ph = "headers" THEN "malformed_frame"
                ELSE "finished"})
  ELSE CASE x.r = "skip" -> RequestMeaning(role, s, p, f, ph, m)
    [] x.r = "incomplete" -> Mean(m, {EndOf(f)} \cup early)
    [] x.r = "malformed_frame" -> Mean(m, {"malformed_frame"} \cup early)
    [] x.r = "ok" /\ err = "not_implemented" ->
         IF x.t = "push_promise" THEN Mean([m EXCEPT !.ni = @ + 1], {"free"})
         ELSE RequestMeaning(role, s, p, f, ph, [m EXCEPT !.ni = @ + 1])
    [] x.r = "ok" /\ err \notin {"", "not_implemented"} -> Mean(m, {err})
    [] x.r = "ok" /\ err = "" /\ x.t = "data" ->
         LET m1 == [m EXCEPT !.body = @ \o SubSeq(s, p, q - 1)] IN
         IF whole THEN RequestMeaning(role, s, q, f, ph, m1) ELSE Mean(m1, {EndOf(f)})
    [] x.r = "ok" /\ err = "" /\ x.t = "headers" /\ ph = "body" ->
         IF whole THEN RequestMeaning(role, s, q, f, "trailed", m) ELSE Mean(m, {EndOf(f)})
    [] x.r = "ok" /\ err = "" /\ x.t = "headers" /\ ph = "headers" ->
         LET l == LinesFrom(s, p + 2, q - 1, <<>>)
             m1 == [m EXCEPT !.hs = IF q - p >= 2 THEN l.hs ELSE <<>>]
         IN IF size = 0 THEN Mean(m, {"malformed_frame"})
            ELSE IF q - p < 2 \/ (l.r = "end" /\ l.hs = <<>>) \/ l.r = "incomplete"
            THEN Mean(m1, IF whole THEN BlockErrors ELSE {EndOf(f)})
            ELSE IF l.r # "end" THEN Mean(m1, {l.r})
            ELSE IF whole
            THEN RequestMeaning(role, s, q, f, "body", [m1 EXCEPT !.hfin = TRUE])
            ELSE Mean(m1, {EndOf(f)})

RECURSIVE ControlMeaning(_, _, _, _, _)
ControlMeaning(role, s, i, ph, m) ==
  LET x == FrameAt(s, i, Len(s))
      err == IF Known(x.t) THEN ControlFrameError(role, ph, x.t) ELSE ""
  IN
  CASE x.r = "skip" -> ControlMeaning(role, s, i + x.n, ph, m)
    [] x.r = "incomplete" -> Mean(m, {"open"} \cup EarlyErrors(err))
    [] x.r = "malformed_frame" -> Mean(m, {"malformed_frame"} \cup EarlyErrors(err))
    [] x.r = "ok" /\ err = "" ->
         ControlMeaning(role, s, i + x.n, "active", [m EXCEPT !.set = Append(@, x.v.f)])
    [] x.r = "ok" /\ err = "not_implemented" ->
         ControlMeaning(role, s, i + x.n, ph, [m EXCEPT !.ni = @ + 1])
    [] x.r = "ok" /\ err \notin {"", "not_implemented"} -> Mean(m, {err})

=============================================================================
