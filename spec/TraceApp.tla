------------------------------ MODULE TraceApp ------------------------------
(* Is every trace recorded from the client program a behaviour of the specification?
   See Trace. *)
EXTENDS App, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, st

QStep(s, e) ==
  IF e.o \in {"crash", "hang"} THEN QNo("the program does not survive: " \o e.o)
  ELSE OnApp(s, e)

Init == /\ t \in 1..Len(Traces)
        /\ l = 0
        /\ st = AInit

Next == /\ l >= 0
        /\ l < Len(Traces[t].ev)
        /\ \E r \in {QStep(st, Traces[t].ev[l + 1])} :
             IF r.ok
             THEN l' = l + 1 /\ st' = r.st
             ELSE /\ PrintT(<<"REJECTED", Traces[t].id, l + 1, r.why>>)
                  /\ l' = -1
                  /\ st' = AInit
        /\ t' = t

Spec == Init /\ [][Next]_<<t, l, st>>

View == <<t, l>>

=============================================================================
