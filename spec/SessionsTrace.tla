--------------------------- MODULE SessionsTrace ---------------------------
(* What was recorded from the real code, event by event: each has to be a step
   that Sessions allows.  K.ev is the sequence of events
   [s, ev, arg, ret, len, oth], K.lens the number of characters of each value. *)
EXTENDS Sessions
VARIABLE i
tvars == <<c, st, html, text, opt, shared, ncalls, i>>
E == K.ev[i]
TInit == SInit /\ i = 1
Tau == \* what no caller sees
  \E s \in S : st[s] = "built" /\ Alone(s).out # "-" /\ i <= Len(K.ev) /\ E.s = s /\ Grab(s) /\ UNCHANGED i
Take ==
  /\ i <= Len(K.ev) /\ i' = i + 1
  /\ CASE E.ev = "rejected" -> Reject(E.s)
       [] E.ev = "built" -> Build(E.s)
       [] E.ev = "ser" -> Render(E.s, E.arg, E.ret)
       [] E.ev = "conv" -> Convert(E.s, E.arg, E.ret)
       [] E.ev = "failed" -> Fail(E.s)
       [] E.ev = "result" -> (K.nolen \/ E.len = K.lens[E.ret]) /\ Return(E.s, E.arg, E.ret, E.oth)
       [] E.ev = "asked" -> Ask(E.s) /\ Alone(E.s).asked
       [] E.ev = "verdict" -> Answer(E.s, E.ret)
       [] OTHER -> FALSE
Quiet == \* a question that asks nothing, or has been given its answer
  \E s \in S : /\ i <= Len(K.ev) /\ E.s = s /\ E.ev = "verdict" /\ UNCHANGED i
               /\ ((st[s] = "new" /\ ~Alone(s).asked /\ Ask(s)) \/ Look(s))
TNext == Tau \/ Quiet \/ Take
TSpec == TInit /\ [][TNext]_tvars
Ended == i > Len(K.ev) /\ Over
\* no step is left, but the trace is not at its end
Told == (Ended \/ ~ENABLED TNext) =>
        PrintT((IF Ended THEN "GOOD " ELSE "BAD ") \o ToString(c) \o " " \o ToString(i))
=============================================================================
