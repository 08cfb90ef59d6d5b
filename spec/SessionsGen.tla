---------------------------- MODULE SessionsGen ----------------------------
(* All schedules of the sessions of a case: one step is what happens between
   two moments at which a caller has control.                                 *)
EXTENDS Sessions
VARIABLES h
gvars == <<c, st, html, text, opt, shared, ncalls, h>>
V(s) == "v" \o ToString(s)
\* the moments at which the caller has control are the states new, built, serializing, converting, asking
Step(s) ==
  \/ Reject(s) \/ Build(s) \/ Grab(s) \/ Render(s, Alone(s).html, V(s)) \/ Convert(s, html[s], V(s)) \/ Fail(s)
  \/ Return(s, html[s], TextOf(s), Alone(s).oth) \/ Ask(s) \/ Look(s) \/ Answer(s, Alone(s).out)
Inner(s) == st[s] \in {"failing", "ready", "answering"}
Busy == {s \in S : Inner(s)}
GInit == SInit /\ h = <<>>
GNext == IF Busy # {} THEN \E s \in Busy : Step(s) /\ UNCHANGED h
         ELSE \E s \in S : Step(s) /\ h' = Append(h, s)
GSpec == GInit /\ [][GNext]_gvars
Told == Over => PrintT("H " \o ToString(c) \o " " \o ToJson(h))
=============================================================================
