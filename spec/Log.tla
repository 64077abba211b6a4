--------------------------------- MODULE Log ---------------------------------
(* Logging: one logger at most is in use; a message reaches it exactly once, as
   it was given; the console writes it as one line. Without a logger nothing is
   written, and in no case does logging change what the rest of the program does
   ("twin" events: the same calls without and with a logger). *)
EXTENDS Bytes

LevelOf == [trace |-> <<84, 82, 65, 67, 69>>, debug |-> <<68, 69, 66, 85, 71>>,
            info |-> <<73, 78, 70, 79>>, warning |-> <<87, 65, 82, 78>>,
            error |-> <<69, 82, 82, 79, 82>>]
Levels == DOMAIN LevelOf

\* Decimal digits of an integer.
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Decimal(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)

Shown(a) == IF a.k = "n" THEN Decimal(a.n) ELSE a.s

RECURSIVE RenderFrom(_, _, _)
\* The format from position i on, with the arguments still to come.
RenderFrom(f, i, args) ==
  IF i > Len(f) THEN <<>>
  ELSE IF i < Len(f) /\ f[i] = 123 /\ f[i + 1] = 125        \* {}
  THEN Shown(Head(args)) \o RenderFrom(f, i + 2, Tail(args))
  ELSE IF i < Len(f) /\ f[i] \in {123, 125} /\ f[i + 1] = f[i]
  THEN <<f[i]>> \o RenderFrom(f, i + 2, args)
  ELSE <<f[i]>> \o RenderFrom(f, i + 1, args)
Render(f, args) == RenderFrom(f, 1, args)

----------------------------------------------------------------------------
(* The console *)

RECURSIVE AfterColor(_, _)
\* The position after a colour's sequence ESC [ ... m whose parameters start at i;
\* 0 if it is none.
AfterColor(s, i) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] = 109 THEN i + 1
  ELSE IF s[i] \in 48..57 \cup {59} THEN AfterColor(s, i + 1)
  ELSE 0

RECURSIVE StripFrom(_, _)
StripFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF i < Len(s) /\ s[i] = 27 /\ s[i + 1] = 91 /\ AfterColor(s, i + 2) # 0
  THEN StripFrom(s, AfterColor(s, i + 2))
  ELSE <<s[i]>> \o StripFrom(s, i + 1)
\* The text without colours.
Strip(s) == StripFrom(s, 1)

RECURSIVE SpacesFrom(_, _)
SpacesFrom(s, i) == IF i <= Len(s) /\ s[i] = 32 THEN SpacesFrom(s, i + 1) ELSE i

Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Clock(t) == Two(t \div 3600) \o <<58>> \o Two((t \div 60) % 60) \o <<58>> \o Two(t % 60)

Day == 86400
\* The times of day from t0 to t1, at most ten seconds apart.
Times(t0, t1) == {(t0 + k) % Day : k \in 0..Min2(10, (t1 - t0 + Day) % Day)}

Where(e) == e.file \o <<58>> \o Decimal(e.line) \o <<58, 32>>

\* Is s the line of the message e? The blanks that align it do not matter.
Line(s, e, text, where) ==
  LET name == LevelOf[e.lvl]
      p1 == SpacesFrom(s, 9)
      p2 == p1 + Len(name)
      p3 == SpacesFrom(s, p2)
      rest == (IF where THEN Where(e) ELSE <<>>) \o text \o <<10>>
  IN /\ Len(s) > p2
     /\ \E t \in Times(e.t0, e.t1) : Sub(s, 1, 8) = Clock(t)
     /\ p1 > 9 /\ Sub(s, p1, p2 - 1) = name
     \* the text may start with blanks itself
     /\ p3 > p2 /\ \E p \in (p2 + 1)..p3 : From(s, p) = rest

Loggers == {"none", "discard", "keep", "console", "source"}

\* What is wrong with the message, "" if nothing.
JudgeMessage(l, e) ==
  LET text == Render(e.f, e.a)
      strip(b) == Strip(b)
      where == e.lvl \in {"warning", "error"}
      used == IF where THEN e.err ELSE e.out
      other == IF where THEN e.out ELSE e.err
  IN CASE l \in {"none", "discard"} ->
            IF e.out = <<>> /\ e.err = <<>> /\ e.got = <<>> THEN "" ELSE "a message from nowhere"
       [] l = "keep" ->
            IF e.out # <<>> \/ e.err # <<>> THEN "output besides the logger's"
            ELSE IF Len(e.got) # 1 THEN "not one message"
            ELSE LET g == e.got[1] IN
                 IF g.lvl # e.lvl THEN "another level"
                 ELSE IF g.text # text THEN "another text"
                 ELSE IF g.file # e.file \/ g.func # e.func \/ g.line # e.line
                 THEN "another place" ELSE ""
       [] l \in {"console", "source"} ->
            IF other # <<>> THEN "output on the other stream"
            \* colours of the text are those of the line's end
            ELSE IF Line(strip(used), e, strip(text), l = "source") THEN ""
            ELSE "not the line of the message"

ValidMessage(m) == m.lvl \in Levels /\ m.line > 0 /\ m.file # <<>> /\ m.func # <<>>

=============================================================================
