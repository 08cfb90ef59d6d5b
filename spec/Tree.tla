-------------------------------- MODULE Tree --------------------------------
(* Documents as an arena: T[i] is the node i.  Node 1 is the root element;
   p = 0 means no parent (or, for the root, the document).  Element nodes
   have a tag g, attributes a (a sequence of <<name, value>>) and children k;
   text nodes have g = "" and tokens x.  A token > 0 is a chunk of text (an
   index into the chunk table), 0 is a space, -1 a newline and -2 a no-break
   space.  s is the content score (empty: none), d the data table verdict
   (0 none, 1 layout, 2 data), m the marks of the node (see Rules).          *)
EXTENDS Str, FiniteSets

Pick(q, S) == SelectSeq(q, LAMBDA e : e \in S)
InSeq(q, e) == \E i \in 1..Len(q) : q[i] = e
IndexOf(q, e) == CHOOSE i \in 1..Len(q) : q[i] = e
Without(q, e) == SelectSeq(q, LAMBDA f : f # e)
ReplaceAt(q, i, new) == SubSeq(q, 1, i - 1) \o new \o SubSeq(q, i + 1, Len(q))
RECURSIVE SumSeq(_, _)
SumSeq(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + SumSeq(q, i + 1)
Sum(q) == SumSeq(<<>> \o q, 1)
Rev(q) == <<>> \o [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

IsEl(T, i) == T[i].g # ""
IsTx(T, i) == T[i].g = ""
ElKids(T, i) == SelectSeq(T[i].k, LAMBDA j : T[j].g # "")

\* attributes
HasAttr(A, n) == \E i \in 1..Len(A) : A[i][1] = n
Attr(A, n) == IF \E i \in 1..Len(A) : A[i][1] = n
              THEN A[CHOOSE i \in 1..Len(A) : A[i][1] = n][2] ELSE ""
SetAttr(A, n, v) == IF HasAttr(A, n) THEN [i \in 1..Len(A) |-> IF A[i][1] = n THEN <<n, v>> ELSE A[i]]
                    ELSE Append(A, <<n, v>>)
DelAttr(A, n) == SelectSeq(A, LAMBDA e : e[1] # n)
DelAttrs(A, S) == SelectSeq(A, LAMBDA e : e[1] \notin S)

\* element descendants in document order
RECURSIVE DescR(_, _, _, _)
DescR(T, ks, j, acc) ==
  IF j > Len(ks) THEN acc
  ELSE IF T[ks[j]].g = "" THEN DescR(T, ks, j + 1, acc)
  ELSE DescR(T, ks, j + 1, DescR(T, T[ks[j]].k, 1, Append(acc, ks[j])))
Desc(T, i) == DescR(T, T[i].k, 1, <<>>)
ByTag(T, i, g) == SelectSeq(Desc(T, i), LAMBDA j : T[j].g = g)
RECURSIVE ByTagsR(_, _, _, _)
ByTagsR(T, D, gs, j) == IF j > Len(gs) THEN <<>>
  ELSE SelectSeq(D, LAMBDA e : T[e].g = gs[j]) \o ByTagsR(T, D, gs, j + 1)
ByTags(T, i, gs) == ByTagsR(T, Desc(T, i), gs, 1)     \* tag by tag, each in document order
Count(T, i, g) == Len(ByTag(T, i, g))
\* all nodes below i (texts included), in document order
RECURSIVE AllR(_, _, _, _)
AllR(T, ks, j, acc) ==
  IF j > Len(ks) THEN acc
  ELSE AllR(T, ks, j + 1, AllR(T, T[ks[j]].k, 1, Append(acc, ks[j])))
AllBelow(T, i) == AllR(T, T[i].k, 1, <<>>)

RECURSIVE TextR(_, _, _, _)
TextR(T, ks, j, acc) ==
  IF j > Len(ks) THEN acc
  ELSE IF T[ks[j]].g = "" THEN TextR(T, ks, j + 1, acc \o T[ks[j]].x)
  ELSE TextR(T, ks, j + 1, TextR(T, T[ks[j]].k, 1, acc))
Text(T, i) == IF T[i].g = "" THEN T[i].x ELSE TextR(T, T[i].k, 1, <<>>)

\* tokens: blanks at the ends go, inner runs of blanks count as one
TrimTok(x) ==
  IF \A i \in 1..Len(x) : x[i] <= 0 THEN <<>>
  ELSE LET f == CHOOSE i \in 1..Len(x) : x[i] > 0 /\ \A j \in 1..(i - 1) : x[j] <= 0
           l == CHOOSE i \in 1..Len(x) : x[i] > 0 /\ \A j \in (i + 1)..Len(x) : x[j] <= 0
       IN SubSeq(x, f, l)
BlankTok(x) == \A i \in 1..Len(x) : x[i] <= 0            \* TrimSpace leaves nothing
WsTok(x) == \A i \in 1..Len(x) : x[i] \in {0, -1}        \* regexp ^\s*$

\* ancestors, nearest first (the document not included)
RECURSIVE AncR(_, _, _)
AncR(T, i, acc) == IF T[i].p = 0 THEN acc ELSE AncR(T, T[i].p, Append(acc, T[i].p))
Anc(T, i) == AncR(T, i, <<>>)

NoMarks == [unl |-> FALSE, w |-> 0, by |-> FALSE, sh |-> FALSE, hid |-> FALSE, dlg |-> FALSE, rol |-> FALSE]
NewEl(g, par, ks) == [g |-> g, a |-> <<>>, k |-> ks, p |-> par, x |-> <<>>, s |-> <<>>, d |-> 0, m |-> NoMarks]
NewTx(par, x) == [g |-> "", a |-> <<>>, k |-> <<>>, p |-> par, x |-> x, s |-> <<>>, d |-> 0, m |-> NoMarks]

\* edits: each yields the new arena
Detach(T, i) == IF T[i].p = 0 THEN T
                ELSE LET q == T[i].p IN [T EXCEPT ![q].k = Without(@, i), ![i].p = 0]
AppendTo(T, q, i) == LET U == Detach(T, i) IN [U EXCEPT ![q].k = Append(@, i), ![i].p = q]
Replace(T, old, new) ==      \* old.ParentNode.ReplaceChild(new, old)
  LET U == Detach(T, new) q == U[old].p IN
  [U EXCEPT ![q].k = ReplaceAt(@, IndexOf(@, old), <<new>>), ![new].p = q, ![old].p = 0]
RECURSIVE DetachAll(_, _, _)
DetachAll(T, q, i) == IF i > Len(q) THEN T ELSE DetachAll(Detach(T, q[i]), q, i + 1)
RECURSIVE MoveAll(_, _, _)   \* all children of i to the end of q
MoveAll(T, i, q) == IF T[i].k = <<>> THEN T ELSE MoveAll(AppendTo(T, q, T[i].k[1]), i, q)

\* depth-first traversal over elements
NextSib(T, i) == IF T[i].p = 0 THEN 0
  ELSE LET E == ElKids(T, T[i].p) j == IndexOf(E, i) IN IF j < Len(E) THEN E[j + 1] ELSE 0
PrevSib(T, i) == IF T[i].p = 0 THEN 0
  ELSE LET E == ElKids(T, T[i].p) j == IndexOf(E, i) IN IF j > 1 THEN E[j - 1] ELSE 0
RECURSIVE Up(_, _)
Up(T, i) == LET n == NextSib(T, i) IN IF n # 0 THEN n ELSE IF T[i].p = 0 THEN 0 ELSE Up(T, T[i].p)
NextNode(T, i, skip) == LET E == ElKids(T, i) IN IF ~skip /\ E # <<>> THEN E[1] ELSE Up(T, i)

\* adjacent texts become one text and empty texts vanish when a tree is written and read back
RECURSIVE MergeKs(_, _, _, _)
MergeKs(T, ks, j, acc) ==     \* yields <<T, kids>>
  IF j > Len(ks) THEN <<T, acc>>
  ELSE LET e == ks[j] IN
    IF T[e].g # "" THEN MergeKs(T, ks, j + 1, Append(acc, e))
    ELSE IF T[e].x = <<>> THEN MergeKs([T EXCEPT ![e].p = 0], ks, j + 1, acc)
    ELSE IF acc # <<>> /\ T[acc[Len(acc)]].g = ""
         THEN MergeKs([T EXCEPT ![acc[Len(acc)]].x = @ \o T[e].x, ![e].p = 0], ks, j + 1, acc)
         ELSE MergeKs(T, ks, j + 1, Append(acc, e))
RECURSIVE MergeAll(_, _, _)
MergeAll(T, D, j) == IF j > Len(D) THEN T
  ELSE LET r == MergeKs(T, T[D[j]].k, 1, <<>>) IN MergeAll([r[1] EXCEPT ![D[j]].k = r[2]], D, j + 1)
Merged(T, i) == MergeAll(T, <<i>> \o Desc(T, i), 1)

\* what a reader of the tree below i sees: <<depth, tag, attributes, tokens>> in document order,
\* adjacent texts merged
RECURSIVE FlatR(_, _, _, _, _)
FlatR(T, ks, j, d, acc) ==
  IF j > Len(ks) THEN acc
  ELSE LET e == ks[j] IN
    IF T[e].g # ""
    THEN FlatR(T, ks, j + 1, d, FlatR(T, T[e].k, 1, d + 1,
           Append(acc, <<d, T[e].g, {T[e].a[h] : h \in 1..Len(T[e].a)}, <<>> >>)))
    ELSE IF T[e].x = <<>> THEN FlatR(T, ks, j + 1, d, acc)
    ELSE IF acc # <<>> /\ acc[Len(acc)][1] = d /\ acc[Len(acc)][2] = ""
         THEN FlatR(T, ks, j + 1, d, [acc EXCEPT ![Len(acc)] = <<d, "", {}, @[4] \o T[e].x>>])
         ELSE FlatR(T, ks, j + 1, d, Append(acc, <<d, "", {}, T[e].x>>))
Flat(T, i) == FlatR(T, T[i].k, 1, 1, <<>>)

\* structural sanity of everything hanging below i
WellFormed(T, i) ==
  LET A == <<i>> \o AllBelow(T, i) IN
  /\ Cardinality({A[x] : x \in 1..Len(A)}) = Len(A)
  /\ \A x \in 1..Len(A) : \A y \in 1..Len(T[A[x]].k) : T[T[A[x]].k[y]].p = A[x]

\* exact rational comparison without large products: sign of n1/d1 - n2/d2
RECURSIVE RCmp(_, _, _, _)
RCmp(n1, d1, n2, d2) ==
  LET q1 == n1 \div d1 q2 == n2 \div d2 r1 == n1 % d1 r2 == n2 % d2 IN
  IF q1 # q2 THEN (IF q1 < q2 THEN -1 ELSE 1)
  ELSE IF r1 = 0 /\ r2 = 0 THEN 0
  ELSE IF r1 = 0 THEN -1
  ELSE IF r2 = 0 THEN 1
  ELSE RCmp(d2, r2, d1, r1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN -n ELSE n
Reduce(n, d) == LET g == Gcd(Abs(n), d) IN <<n \div g, d \div g>>
RECURSIVE Pow2(_)
Pow2(d) == d = 1 \/ (d % 2 = 0 /\ Pow2(d \div 2))
=============================================================================
