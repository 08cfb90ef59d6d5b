------------------------------ MODULE Sessions ------------------------------
(* Callers of the library in one process.  A session is an extraction (build a
   reader, extract; the caller's serializer and converter have control in
   between) or the question whether a page is readerable (the caller's
   visibility check has control in between).  Sessions run in any interleaving.
   What a session yields is a function of its own page, address and options:
   K.sess[s].alone is what it yields in a process of its own,
     [out, html, text, oth]  (an extraction; html, text, oth are names of values)
     [out, asked]            (a question).
   shared stands for the library's defaults: every reader starts from them and
   adds its own options; nobody changes them.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, st, html, text, opt, shared, ncalls
svars == <<c, st, html, text, opt, shared, ncalls>>
K == Cases[c]
S == 1..Len(K.sess)
Sess(s) == K.sess[s]
Alone(s) == Sess(s).alone
Defaults == <<"page">>

SInit == /\ c \in 1..Len(Cases)
         /\ st = [s \in 1..Len(Cases[c].sess) |-> "new"]
         /\ html = [s \in 1..Len(Cases[c].sess) |-> ""]
         /\ text = [s \in 1..Len(Cases[c].sess) |-> ""]
         /\ opt = [s \in 1..Len(Cases[c].sess) |-> <<>>]
         /\ ncalls = [s \in 1..Len(Cases[c].sess) |-> 0]
         /\ shared = Defaults

Goto(s, x) == st' = [st EXCEPT ![s] = x]
Same == UNCHANGED <<c, shared>>
Reject(s) == /\ Sess(s).kind = "extract" /\ st[s] = "new" /\ Alone(s).out = "rejected"
             /\ Goto(s, "rejected") /\ Same /\ UNCHANGED <<html, text, opt, ncalls>>
Build(s) == /\ Sess(s).kind = "extract" /\ st[s] = "new" /\ Alone(s).out # "rejected"
            /\ Goto(s, "built") /\ opt' = [opt EXCEPT ![s] = Append(shared, s)]
            /\ Same /\ UNCHANGED <<html, text, ncalls>>
\* what the caller gets to see of an extraction begins when the article is there
After(s) == IF Sess(s).conv THEN "converting" ELSE "ready"
Grab(s) == /\ st[s] = "built"
           /\ IF Alone(s).out = "err" THEN Goto(s, "failing") /\ UNCHANGED html
              ELSE IF Sess(s).ser THEN Goto(s, "serializing") /\ UNCHANGED html
              ELSE Goto(s, After(s)) /\ html' = [html EXCEPT ![s] = Alone(s).html]
           /\ Same /\ UNCHANGED <<text, opt, ncalls>>
Render(s, arg, v) == /\ st[s] = "serializing" /\ arg = Alone(s).html
                        /\ html' = [html EXCEPT ![s] = v] /\ ncalls' = [ncalls EXCEPT ![s] = @ + 1]
                        /\ Goto(s, After(s)) /\ Same /\ UNCHANGED <<text, opt>>
Convert(s, arg, v) == /\ st[s] = "converting" /\ arg = html[s]
                      /\ text' = [text EXCEPT ![s] = v] /\ ncalls' = [ncalls EXCEPT ![s] = @ + 1]
                      /\ Goto(s, "ready") /\ Same /\ UNCHANGED <<html, opt>>
Fail(s) == /\ st[s] = "failing" /\ Goto(s, "failed") /\ Same /\ UNCHANGED <<html, text, opt, ncalls>>
\* the caller's view of the result: the fields are those
TextOf(s) == IF Sess(s).conv THEN text[s] ELSE Alone(s).text
Return(s, h, t, o) == /\ st[s] = "ready" /\ h = html[s] /\ t = TextOf(s) /\ o = Alone(s).oth
                      /\ Goto(s, "done") /\ Same /\ UNCHANGED <<html, text, opt, ncalls>>
Ask(s) == /\ Sess(s).kind = "ask" /\ st[s] = "new" /\ Goto(s, IF Alone(s).asked THEN "asking" ELSE "answering")
          /\ Same /\ UNCHANGED <<html, text, opt, ncalls>>
Look(s) == /\ st[s] = "asking" /\ Goto(s, "answering") /\ Same /\ UNCHANGED <<html, text, opt, ncalls>>
Answer(s, v) == /\ st[s] = "answering" /\ v = Alone(s).out /\ Goto(s, "done") /\ Same /\ UNCHANGED <<html, text, opt, ncalls>>
Over == \A s \in S : st[s] \in {"done", "failed", "rejected"}

\* nobody changes the defaults, and a reader has the defaults and its own options, always
Inv_Shared == shared = Defaults /\ \A s \in S : opt[s] = <<>> \/ opt[s] = Append(Defaults, s)
\* the caller's functions are called once each
Inv_Calls == \A s \in S : st[s] = "done" /\ Sess(s).kind = "extract" =>
               ncalls[s] = (IF Sess(s).ser THEN 1 ELSE 0) + (IF Sess(s).conv THEN 1 ELSE 0)
=============================================================================
