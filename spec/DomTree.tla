------------------------------ MODULE DomTree ------------------------------
(* Trees recorded from the real extraction: all links describe one tree.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE c
K == Cases[c]
V == K.view
Kind(x) == K.kinds[x]
M == Len(V)
Range(q) == {q[j] : j \in 1..Len(q)}
Prev(q, j) == IF j = 1 THEN 0 ELSE q[j - 1]
Nxt(q, j) == IF j = Len(q) THEN 0 ELSE q[j + 1]
Linked(x) == LET q == V[x].cn e == V[x].ch IN
  /\ <<>> \o e = SelectSeq(<<>> \o q, LAMBDA y : y \in 1..M /\ Kind(y) = "e")
  /\ \A j \in 1..Len(q) : q[j] \in 1..M /\ V[q[j]].up = x /\ V[q[j]].pv = Prev(q, j) /\ V[q[j]].nx = Nxt(q, j)
  /\ \A j \in 1..Len(e) : V[e[j]].pe = Prev(e, j) /\ V[e[j]].ne = Nxt(e, j)
\* nodes are numbered in document order, the first is the root
Tree == /\ V[1].up = 0 /\ V[1].nx = 0 /\ V[1].pv = 0 /\ V[1].ne = 0 /\ V[1].pe = 0
        /\ \A x \in 2..M : V[x].up \in 1..(x - 1) /\ x \in Range(V[V[x].up].cn)
        /\ \A x \in 1..M : Linked(x) /\ (Kind(x) # "e" => V[x].cn = <<>>)
        /\ \A x \in 1..M : Cardinality(Range(V[x].cn)) = Len(V[x].cn)
Init == c \in 1..Len(Cases)
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Told == PrintT((IF Tree THEN "GOOD " ELSE "BAD ") \o ToString(c) \o " " \o ToString(M))
=============================================================================
