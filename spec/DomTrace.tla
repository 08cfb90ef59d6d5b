------------------------------ MODULE DomTrace ------------------------------
(* Edits recorded from the real nodes, checked against Dom step by step, and
   trees recorded from the real extraction, checked to be well linked.         *)
EXTENDS Dom, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, ok
tvars == <<kids, kind, sets, L, c, i, ok>>
K == Cases[c]
Rec(v) == [up |-> v.up, nx |-> v.nx, pv |-> v.pv, ne |-> v.ne, pe |-> v.pe, cn |-> <<>> \o v.cn, ch |-> <<>> \o v.ch]
TInit == /\ c \in 1..Len(Cases) /\ i = 0 /\ ok = TRUE
         /\ kids = [x \in Nodes |-> <<>>]
         /\ kind = [x \in Nodes |-> IF x <= NE THEN "e" ELSE IF x <= NE + NT THEN "t" ELSE ""]
         /\ sets = 0 /\ L = Links(kids, kind)
\* where an edit leads
After(op) ==
  CASE op[1] = "append" -> [k |-> AppendF(kids, op[2], op[3]), kd |-> kind]
    [] op[1] \in {"remove", "remove!"} -> [k |-> RemoveF(kids, op[2], op[3]), kd |-> kind]
    [] op[1] = "replace" -> [k |-> ReplaceF(kids, op[2], op[3], op[4]), kd |-> kind]
    [] op[1] = "text" -> LET r == SetContent(op[2], <<"t">>) IN [k |-> r.k, kd |-> r.kd]
    [] op[1] = "markup" -> LET r == SetContent(op[2], <<>> \o op[3]) IN [k |-> r.k, kd |-> r.kd]
Allowed(op) == op[1] \in {"append", "replace"} => op[2] \notin Under(kids, op[3])
Matches(v) == /\ \A x \in Nodes : Rec(v[x]) = L'[x]
              /\ \A x \in Nodes : kind'[x] = "e" => <<>> \o v[x].tx = Texts(kids', kind', x)
Step == /\ ok /\ i < Len(K.ops)
        /\ \E op \in {K.ops[i + 1]} : /\ Assert(Allowed(op), <<"not an edit of the specification", op>>)
                                      /\ \E r \in {After(op)} : kids' = r.k /\ kind' = r.kd /\ L' = Links(r.k, r.kd)
        /\ sets' = sets /\ c' = c /\ i' = i + 1
        /\ ok' = (i + 1 <= Len(K.views) /\ Matches(K.views[i + 1]))
TNext == Step
TSpec == TInit /\ [][TNext]_tvars
Told == IF ~ok THEN PrintT("BAD " \o ToString(c) \o " " \o ToString(i)) ELSE i = Len(K.ops) => PrintT("GOOD " \o ToString(c) \o " " \o ToString(i))
=============================================================================
