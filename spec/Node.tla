------------------------------- MODULE Node -------------------------------
(* What a single node remembers.  An element has a list of attributes, each
   name at most once; a text has either the text or the markup that was set
   last, and the other one is derived when asked for and kept from then on
   (which must not be noticeable).  Every state and every transition is
   written out, to be replayed on real nodes.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,        \* "attrs" or "text"
          NVals        \* how many different values there are
Names == <<"id", "class", "src", "srcset", "data-x">>
Used == IF NVals > 2 THEN {"id", "class", "src"} ELSE {Names[i] : i \in 1..4}
Vals == {<<"", "a", "b c", "\"<&>'">>[i] : i \in 1..NVals}
\* texts, and markups of texts with the text they stand for
Plain == {"", "x", "a<b", "&amp;", "\"'>"}
Coded == {<<"", "">>, <<"x", "x">>, <<"y&lt;z", "y<z">>, <<"&amp;amp;", "&amp;">>, <<"&#39;&quot;&gt;", "'\">">>}

VARIABLES attrs,       \* sequence of <<name, value>>
          kind,        \* which one of text and markup was set last
          val,         \* what was set
          text,        \* the text it stands for
          asked        \* has the other one been asked for since?
vars == <<attrs, kind, val, text, asked>>
Key == <<attrs, kind, val, asked>>

Pos(n) == IF \E i \in 1..Len(attrs) : attrs[i][1] = n THEN CHOOSE i \in 1..Len(attrs) : attrs[i][1] = n ELSE 0
With(n, v) == IF Pos(n) = 0 THEN Append(attrs, <<n, v>>) ELSE [attrs EXCEPT ![Pos(n)] = <<n, v>>]
Dropped(n) == IF Pos(n) = 0 THEN attrs ELSE SubSeq(attrs, 1, Pos(n) - 1) \o SubSeq(attrs, Pos(n) + 1, Len(attrs))

Say(op) == PrintT("T " \o ToJson([a |-> Key, op |-> op, b |-> Key']))
Init == attrs = <<>> /\ kind = "text" /\ val = "" /\ text = "" /\ asked = FALSE
SetAttr == \E n \in Used, v \in Vals : attrs' = With(n, v) /\ UNCHANGED <<kind, val, text, asked>> /\ Say(<<"set", n, v>>)
SetClass == \E v \in Vals : attrs' = With("class", v) /\ UNCHANGED <<kind, val, text, asked>> /\ Say(<<"class", v>>)
SetId == \E v \in Vals : attrs' = With("id", v) /\ UNCHANGED <<kind, val, text, asked>> /\ Say(<<"id", v>>)
Drop == \E n \in Used : attrs' = Dropped(n) /\ UNCHANGED <<kind, val, text, asked>> /\ Say(<<"drop", n>>)

SetText == \E s \in Plain : kind' = "text" /\ val' = s /\ text' = s /\ asked' = FALSE /\ attrs' = attrs /\ Say(<<"text", s>>)
SetMarkup == \E m \in Coded : kind' = "markup" /\ val' = m[1] /\ text' = m[2] /\ asked' = FALSE /\ attrs' = attrs /\ Say(<<"markup", m[1]>>)
\* asking: the text is the text; the markup is what was set, or stands for the text
AskText == asked' = (asked \/ kind = "markup") /\ UNCHANGED <<attrs, kind, val, text>> /\ Say(<<"asktext", text>>)
AskMarkup == asked' = (asked \/ kind = "text") /\ UNCHANGED <<attrs, kind, val, text>>
             /\ Say(<<"askmarkup", IF kind = "markup" THEN val ELSE "", text>>)
Next == IF Mode = "attrs" THEN SetAttr \/ SetClass \/ SetId \/ Drop ELSE SetText \/ SetMarkup \/ AskText \/ AskMarkup
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Get(n) == IF Pos(n) = 0 THEN "" ELSE attrs[Pos(n)][2]
Once == \A i, j \in 1..Len(attrs) : attrs[i][1] = attrs[j][1] => i = j
\* setting and dropping are local: no other attribute changes, nor their order
Others(q, n) == SelectSeq(q, LAMBDA a : a[1] # n)
Local == [][\E n \in Used : Others(attrs', n) = Others(attrs, n)]_attrs
Meaning == kind = "text" => text = val
Show == PrintT("S " \o ToJson([k |-> Key,
          v |-> [list |-> attrs, get |-> [i \in 1..Len(Names) |-> <<Names[i], Pos(Names[i]) # 0, Get(Names[i])>>], text |-> text]]))
=============================================================================
