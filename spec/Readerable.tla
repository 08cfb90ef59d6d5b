----------------------------- MODULE Readerable -----------------------------
(* The verdict on a page: the machine goes through the blocks that count one
   by one, adding up the square roots of their excess lengths, and stops as
   soon as the sum exceeds the minimum.  Roots are kept as bounds in
   thousandths; a sum between its bounds gives no verdict.                    *)
EXTENDS Rules

VARIABLES pc, todo, lo, hi, n, amb
vars == <<c, pc, todo, lo, hi, n, amb>>
T == K.T

RECURSIVE RootR(_, _, _)        \* largest r in a..b with r * r <= v
RootR(v, a, b) == IF a = b THEN a ELSE LET m == (a + b + 1) \div 2 IN IF m * m <= v THEN RootR(v, m, b) ELSE RootR(v, a, m - 1)
Root(v) == RootR(v, 0, 46340)
RootLo(e) == IF e <= 2000 THEN Root(e * 1000000) ELSE 10 * Root(e * 10000)
RootHi(e) == IF e <= 2000 THEN (LET r == Root(e * 1000000) IN IF r * r = e * 1000000 THEN r ELSE r + 1)
             ELSE (LET r == Root(e * 10000) IN IF r * r = e * 10000 THEN 10 * r ELSE 10 * (r + 1))

\* the blocks: paragraphs and the like in document order, then the blocks that directly hold a line break
Blocks == SelectSeq(Desc(T, 1), LAMBDA i : T[i].g \in {"p", "pre", "article"})
Broken == SelectSeq(Desc(T, 1), LAMBDA i : T[i].g = "div" /\ \E j \in 1..Len(T[i].k) : T[T[i].k[j]].g = "br")
Seen(i) == CASE K.vis = "default" -> ~Hidden(T[i].a)
             [] K.vis = "all" -> TRUE
             [] K.vis = "none" -> FALSE
             [] K.vis = "not" -> Hidden(T[i].a)
             [] OTHER -> Attr(T[i].a, "data-v") # "no"
Furniture(i) == LET ms == Lower(Attr(T[i].a, "class") \o " " \o Attr(T[i].a, "id")) IN HasAny(ms, UnlikelyWords) /\ ~HasAny(ms, MaybeWords)
Item(i) == T[i].g = "p" /\ \E j \in 1..Len(Anc(T, i)) : T[Anc(T, i)[j]].g = "li"
Size(i) == RawLen(TrimTok(Text(T, i)))
Counts(i) == Seen(i) /\ ~Furniture(i) /\ ~Item(i) /\ Size(i) >= K.minlen

Init == /\ c \in 1..Len(Cases) /\ pc = "go" /\ todo = Blocks \o Broken /\ lo = 0 /\ hi = 0 /\ n = 0 /\ amb = FALSE
Skip == /\ pc = "go" /\ todo # <<>> /\ ~Counts(Head(todo))
        /\ todo' = Tail(todo) /\ UNCHANGED <<c, pc, lo, hi, n, amb>>
Add == /\ pc = "go" /\ todo # <<>> /\ Counts(Head(todo))
       /\ \E e \in {Size(Head(todo)) - K.minlen} : lo' = lo + RootLo(e) /\ hi' = hi + RootHi(e)
       /\ n' = n + 1
       /\ pc' = (IF lo' > K.minsc THEN "yes" ELSE "go")
       /\ amb' = (hi' > K.minsc /\ lo' <= K.minsc)
       /\ todo' = Tail(todo) /\ UNCHANGED c
No == /\ pc = "go" /\ todo = <<>> /\ pc' = (IF amb THEN "amb" ELSE "no") /\ UNCHANGED <<c, todo, lo, hi, n, amb>>
Next == Skip \/ Add \/ No
Spec == Init /\ [][Next]_vars

Done == pc \in {"yes", "no", "amb"}
\* the machine agrees with the sum over the set of all blocks that count
All == {i \in {(Blocks \o Broken)[j] : j \in 1..Len(Blocks \o Broken)} : Counts(i)}
RECURSIVE SumLo(_)
SumLo(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN RootLo(Size(i) - K.minlen) + SumLo(S \ {i})
RECURSIVE SumHi(_)
SumHi(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN RootHi(Size(i) - K.minlen) + SumHi(S \ {i})
Inv_Sum == /\ pc = "yes" => SumLo(All) > K.minsc
           /\ pc = "no" => All = {} \/ SumHi(All) <= K.minsc
           /\ pc = "no" => n = Cardinality(All)
Told == Done => PrintT((IF pc = "amb" THEN "AMB " ELSE IF K.obs.out = pc THEN "GOOD " ELSE "BAD ") \o ToString(c) \o " " \o pc \o " " \o ToString(lo) \o " " \o ToString(n))
=============================================================================
