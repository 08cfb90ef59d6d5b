------------------------------- MODULE Lookup -------------------------------
(* Looking an element up by its identifier, below any node of a tree.
   A tree is the sequence of its elements in document order, <<depth, id>>.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, at
K == Cases[c]
N == Len(K.tree)
Init == c \in 1..Len(Cases) /\ at = K.from
\* the walk in document order: on to the next element, while still below where it began
Below(x) == x <= N /\ \A y \in (K.from + 1)..x : K.tree[y][1] > K.tree[K.from][1]
Found(x) == x <= N /\ K.tree[x][2] = K.id
Step == Below(at) /\ ~Found(at) /\ at' = at + 1 /\ c' = c
Spec == Init /\ [][Step]_<<c, at>>
Answer == IF ~Below(at) THEN 0 ELSE at
Told == (~Below(at) \/ Found(at)) =>
        PrintT((IF K.obs = Answer THEN "GOOD " ELSE "BAD ") \o ToString(c) \o " " \o ToString(Answer))
=============================================================================
