------------------------------ MODULE Output ------------------------------
(* What every result is like, whatever the source was: a reader's walk over
   the content it got back, node by node.  Unlike Extract this says nothing
   about which article comes out of which page; it holds for any tag soup.
   A case holds the content as it was read back (K.tree: depth, tag,
   attributes as <<name, value, classes, javascript?>>, serial numbers of the
   pieces of text), the classes asked for and what else was reported.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, svg, last, bad
vars == <<c, i, svg, last, bad>>
K == Cases[c]
N == K.tree[i]

Junk == {"script", "noscript", "style", "link", "input", "textarea", "select", "button", "footer", "aside", "h1"}
Presentational == {"align", "background", "bgcolor", "border", "cellpadding", "cellspacing", "frame", "hspace", "rules", "style", "valign", "vspace"}
Sized == {"table", "th", "td", "hr", "pre"}
Has(a) == \E j \in 1..Len(N[3]) : N[3][j][1] = a
\* inside of inline SVG styling stays (svg: depth of the outermost one, 0 if outside)
Outside == svg = 0 \/ N[1] <= svg
ToSet(s) == {s[j] : j \in 1..Len(s)}

Clean == /\ N[2] \notin Junk
         /\ Outside /\ N[2] # "svg" => /\ \A p \in Presentational : ~Has(p)
                                       /\ N[2] \in Sized => ~Has("width") /\ ~Has("height")
NoJs == N[2] = "a" => \A j \in 1..Len(N[3]) : ~(N[3][j][1] = "href" /\ N[3][j][4])
Classes == K.keep \/ \A j \in 1..Len(N[3]) : N[3][j][1] = "class" => N[3][j][3] # <<>> /\ ToSet(N[3][j][3]) \subseteq ToSet(K.pres) \cup {"page"}
Wrapped == IF i = 1 THEN N[1] = 1 /\ N[2] = "div" /\ Has("id") /\ (\E j \in 1..Len(N[3]) : N[3][j][1] = "id" /\ N[3][j][2] = "readability-page-1") ELSE N[1] > 1
WellFormed == ~(Len(N[2]) > 0 /\ SubSeq(N[2], 1, 1) = "!")
RECURSIVE Increasing(_, _)
Increasing(s, from) == s = <<>> \/ (s[1] > from /\ Increasing(Tail(s), s[1]))
InOrder == Increasing(N[4], last)

Wrong == {w \in {"clean", "js", "classes", "wrapped", "wellformed", "order"} :
            CASE w = "clean" -> ~Clean [] w = "js" -> ~NoJs [] w = "classes" -> ~Classes
              [] w = "wrapped" -> ~Wrapped [] w = "wellformed" -> ~WellFormed [] w = "order" -> ~InOrder}
Init == c \in 1..Len(Cases) /\ i = 1 /\ svg = 0 /\ last = 0 /\ bad = (IF K.same /\ K.len = K.rl THEN {} ELSE {"text"})
Step == /\ i <= Len(K.tree) /\ i' = i + 1
        /\ svg' = (IF ~Outside THEN svg ELSE IF N[2] = "svg" THEN N[1] ELSE 0)
        /\ last' = (IF N[4] = <<>> THEN last ELSE N[4][Len(N[4])])
        /\ bad' = bad \cup Wrong
        /\ UNCHANGED c
Next == Step
Spec == Init /\ [][Next]_vars
Told == i = Len(K.tree) + 1 /\ bad # {} => PrintT("BAD " \o ToString(c) \o " " \o ToString(bad))
Done == i = Len(K.tree) + 1 => PrintT("DONE " \o ToString(c))
=============================================================================
