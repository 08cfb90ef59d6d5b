-------------------------------- MODULE Cli --------------------------------
(* The command: it reads its arguments one by one, fetches the page, extracts
   the article, prints.  K.args are the arguments, K.pages what the addresses
   lead to: [url, fetch ("page" or "none"), out ("ok", "err", "rejected"),
   html, text, logs], where logs says that reading the page gives cause for a
   log line; all other addresses lead nowhere.                                *)
EXTENDS Str, FiniteSets, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc, i, output, verbose, url, page, status, stdout
vars == <<c, pc, i, output, verbose, url, page, status, stdout>>
K == Cases[c]
NoPage == [url |-> "", fetch |-> "none", out |-> "", html |-> "", text |-> "", logs |-> FALSE]

\* an argument that is a flag: one or two dashes, a name, perhaps =value
IsFlag(a) == Len(a) >= 2 /\ SubSeq(a, 1, 1) = "-" /\ a # "--"
Body(a) == IF Prefix(a, "--") THEN From(a, 3) ELSE From(a, 2)
FlagName(a) == LET b == Body(a) e == Find(b, "=") IN IF e = 0 THEN b ELSE Upto(b, e - 1)
HasVal(a) == Has(Body(a), "=")
FlagVal(a) == LET b == Body(a) IN From(b, Find(b, "=") + 1)
OutNames == {"o", "output"}
LogNames == {"v", "verbose"}

Init == /\ c \in 1..Len(Cases) /\ pc = "args" /\ i = 1 /\ output = "text" /\ verbose = FALSE /\ url = "" /\ page = NoPage /\ status = -1 /\ stdout = ""
Rest == UNCHANGED <<c, page, status, stdout>>
OutFlag == /\ pc = "args" /\ i <= Len(K.args) /\ IsFlag(K.args[i]) /\ FlagName(K.args[i]) \in OutNames
           /\ IF HasVal(K.args[i]) THEN output' = FlagVal(K.args[i]) /\ i' = i + 1
              ELSE output' = K.args[i + 1] /\ i' = i + 2
           /\ UNCHANGED <<pc, verbose, url>> /\ Rest
LogFlag == /\ pc = "args" /\ i <= Len(K.args) /\ IsFlag(K.args[i]) /\ FlagName(K.args[i]) \in LogNames
           /\ verbose' = (IF HasVal(K.args[i]) THEN FlagVal(K.args[i]) \in {"true", "1", "T", "TRUE", "True", "t"} ELSE TRUE) /\ i' = i + 1
           /\ UNCHANGED <<pc, output, url>> /\ Rest
Args == /\ pc = "args" /\ (IF i > Len(K.args) THEN TRUE ELSE ~IsFlag(K.args[i]))
        /\ \E j \in {IF i <= Len(K.args) /\ K.args[i] = "--" THEN i + 1 ELSE i} : url' = (IF j <= Len(K.args) THEN K.args[j] ELSE "")
        /\ pc' = (IF url' = "" THEN "fail" ELSE "fetch") /\ UNCHANGED <<i, output, verbose>> /\ Rest
Fetch == /\ pc = "fetch"
         /\ \E Q \in {{j \in 1..Len(K.pages) : K.pages[j].url = url /\ K.pages[j].fetch = "page"}} :
              /\ page' = (IF Q = {} THEN NoPage ELSE K.pages[CHOOSE j \in Q : TRUE])
              /\ pc' = (IF Q = {} THEN "fail" ELSE "extract")
         /\ UNCHANGED <<c, i, output, verbose, url, status, stdout>>
Extract == /\ pc = "extract" /\ pc' = (IF page.out = "ok" THEN "print" ELSE "fail") /\ UNCHANGED <<c, i, output, verbose, url, page, status, stdout>>
Show == /\ pc = "print" /\ stdout' = (IF output = "html" THEN page.html ELSE page.text) /\ status' = 0 /\ pc' = "end"
         /\ UNCHANGED <<c, i, output, verbose, url, page>>
Fail == /\ pc = "fail" /\ stdout' = "message" /\ status' = 1 /\ pc' = "end" /\ UNCHANGED <<c, i, output, verbose, url, page>>
Next == OutFlag \/ LogFlag \/ Args \/ Fetch \/ Extract \/ Show \/ Fail
Spec == Init /\ [][Next]_vars

\* success and only success prints an article
Inv_Status == pc = "end" => (status = 0 <=> (page.fetch = "page" /\ page.out = "ok"))
Inv_End == pc = "end" => status \in {0, 1} /\ (status = 1 => stdout = "message")
Wrong == (IF K.obs.status # status THEN {"exit status"} ELSE {})
   \cup (IF status = 0 /\ K.obs.stdout # stdout THEN {"standard output"} ELSE {})
   \cup (IF status = 1 /\ ~K.obs.message THEN {"message"} ELSE {})
   \cup (IF ~verbose /\ K.obs.logged THEN {"logs"} ELSE {})
   \cup (IF verbose /\ page.logs /\ ~K.obs.logged THEN {"no logs"} ELSE {})
Told == pc = "end" => \E w \in {Wrong} : PrintT((IF w = {} THEN "GOOD " ELSE "BAD ") \o ToString(c) \o " " \o ToJson(w) \o " " \o ToString(status) \o " " \o stdout)
=============================================================================
