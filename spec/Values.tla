-------------------------------- MODULE Values --------------------------------
(* Values that are passed around: addresses, endpoints, paths, hosts, views of
   bytes and text, headers, events and errors. They are what they were made of,
   copies are equal, and only equal things are equal. *)
EXTENDS Bytes

RECURSIVE Dec3(_)
Dec3(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec3(n \div 10), 48 + (n % 10))
Dotted(a) == Dec3(a[1]) \o <<46>> \o Dec3(a[2]) \o <<46>> \o Dec3(a[3]) \o <<46>> \o Dec3(a[4])

HasUpper(s) == \E i \in DOMAIN s : s[i] \in 65..90

If(k, e, v) == k \notin DOMAIN e \/ e[k] = v

VWhy(c, why) == IF c THEN "" ELSE why

JudgeAddress(e) ==
  VWhy(/\ e.type = (IF Len(e.d) = 4 THEN "ipv4" ELSE "ipv6")
       /\ e.v = e.d /\ e.copy = e.d /\ e.raw = e.d
       /\ Len(e.d) = 4 => e.word = e.d /\ e.text = Dotted(e.d)
       /\ e.self /\ e.eq = (e.d = e.d2),
       "not the address")

JudgePath(e) ==
  VWhy(e.la = e.d /\ e.lp = e.m /\ e.pa = e.d2 /\ e.pp = e.n, "not the path")

JudgeHost(e) == VWhy(e.name = e.d /\ e.text = e.d /\ If("c", e, e.d), "not the host")

JudgeView(e) ==
  VWhy(/\ e.size = Len(e.d) /\ e.ssize = Len(e.d) /\ e.msize = Len(e.d)
       /\ e.empty = (e.d = <<>>) /\ e.sempty = e.empty /\ e.mempty = e.empty
       /\ e.all = e.d /\ e.sall = e.d /\ e.mall = e.d /\ e.mv = e.d
       /\ e.each = e.d /\ e.seach = e.d /\ e.text = e.d /\ If("c", e, e.d)
       /\ e.d # <<>> => e.first = e.d[1] /\ e.sfirst = e.d[1]
       /\ e.eq = (e.d = e.d2) /\ e.ne = (e.d # e.d2)
       /\ e.seq = (e.d = e.d2) /\ e.sne = (e.d # e.d2),
       "not the bytes that are viewed")

JudgeHeaderValue(e) ==
  VWhy(/\ e.hn = e.n /\ e.hv = e.v /\ e.pn = e.n /\ e.pv = e.v
       /\ e.eq = (e.n = e.n2 /\ e.v = e.v2) /\ e.ne = ~e.eq
       /\ e.lower = ~HasUpper(e.n)
       /\ e.text = e.n \o <<58, 32>> \o e.v,
       "not the header")

JudgeEventValue(e) ==
  VWhy(/\ e.isdata /\ e.mid = e.id /\ e.did = e.id /\ e.mfin = e.fin /\ e.mdata = e.d
       /\ e.iserror /\ e.gid = e.id /\ e.eid = e.id /\ e.evalue = e.value /\ e.etype,
       "not the event")

JudgeHttpEvent(e) ==
  VWhy(/\ e.types /\ e.ms = e.s
       /\ e.hid = e.id /\ e.hfin = e.fin /\ e.hn = e.n /\ e.hv = e.v
       /\ e.did = e.id /\ e.mfin = e.fin /\ e.mdata = e.d /\ e.gid = e.id,
       "not the event")

(* Errors. What is sent to the peer has the number of the protocol (draft 22);
   all others are nothing but different. *)
Wire == [http3 |-> [internal |-> 3, wrong_stream |-> 10, closed_critical_stream |-> 15,
                    missing_settings |-> 18, unexpected_frame |-> 19, malformed_frame |-> 256,
                    qpack_decompression_failed |-> 512],
         quic |-> [no_error |-> 0, internal |-> 1]]

JudgeErrors(seen, e) ==
  LET I == DOMAIN e.all
      wire == Wire[e.domain]
  IN CASE \E i \in I : e.all[i].e \in DOMAIN wire /\ e.all[i].value # WideOf(wire[e.all[i].e]) ->
            "not the protocol's number"
       [] \E i \in I : ~e.all[i].same -> "a code that differs from itself"
       [] \E i \in I : e.all[i].is # (e.all[i].e # "no_error") -> "an error that is none"
       [] \E i \in I : \E j \in I : i # j /\ e.all[i].value = e.all[j].value -> "equal errors"
       [] \E i \in I : \E j \in I : i # j /\ e.all[i].code = e.all[j].code -> "equal codes"
       [] \E i \in I : \E j \in I : i # j /\ e.all[i].msg = e.all[j].msg -> "equal messages"
       [] \E i \in I : e.all[i].msg = "" -> "no message"
       [] \E x \in seen : x[1] # e.domain /\ x[2] = e.category -> "one category for two domains"
       [] OTHER -> ""

=============================================================================
