-------------------------------- MODULE Str --------------------------------
(* Character-level functions on strings (TLC strings with Len and SubSeq). *)
EXTENDS Integers, Sequences, TLC

At(s, i) == SubSeq(s, i, i)

UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER == "abcdefghijklmnopqrstuvwxyz"
DIGIT == "0123456789"
CharSet(str) == {SubSeq(str, i, i) : i \in 1..Len(str)}
UpperSet == CharSet(UPPER)
LowerSet == CharSet(LOWER)
DigitSet == CharSet(DIGIT)
AlnumSet == UpperSet \cup LowerSet \cup DigitSet
WordSet == AlnumSet \cup {"_"}
WsSet == {" ", "\n", "\t", "\r", "\f"}        \* regexp \s
NBSP == " "                              \* also blank for TrimSpace
BlankSet == WsSet \cup {NBSP}
LowMap == [ch \in UpperSet |-> LET i == CHOOSE j \in 1..26 : SubSeq(UPPER, j, j) = ch IN SubSeq(LOWER, i, i)]
UpMap == [ch \in LowerSet |-> LET i == CHOOSE j \in 1..26 : SubSeq(LOWER, j, j) = ch IN SubSeq(UPPER, i, i)]

RECURSIVE LowerRec(_, _, _)
LowerRec(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET ch == SubSeq(s, i, i) IN LowerRec(s, i + 1, acc \o (IF ch \in UpperSet THEN LowMap[ch] ELSE ch))
Lower(s) == LowerRec(s, 1, "")

IsAt(s, t, i) == i >= 1 /\ i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
Has(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
HasAny(s, ts) == \E t \in ts : Has(s, t)
Prefix(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
Suffix(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

RECURSIVE FindFrom(_, _, _)
FindFrom(s, t, i) == IF i + Len(t) - 1 > Len(s) THEN 0
                     ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN i ELSE FindFrom(s, t, i + 1)
Find(s, t) == FindFrom(s, t, 1)
RECURSIVE FindLastFrom(_, _, _)
FindLastFrom(s, t, i) == IF i < 1 THEN 0
                         ELSE IF IsAt(s, t, i) THEN i ELSE FindLastFrom(s, t, i - 1)
FindLast(s, t) == FindLastFrom(s, t, Len(s))
RECURSIVE FindSetFrom(_, _, _)
FindSetFrom(s, S, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) \in S THEN i ELSE FindSetFrom(s, S, i + 1)
RECURSIVE SkipSet(_, _, _)          \* first position at or after i whose character is not in S
SkipSet(s, S, i) == IF i <= Len(s) /\ SubSeq(s, i, i) \in S THEN SkipSet(s, S, i + 1) ELSE i
RECURSIVE BackSet(_, _, _)          \* last position at or before i whose character is not in S
BackSet(s, S, i) == IF i >= 1 /\ SubSeq(s, i, i) \in S THEN BackSet(s, S, i - 1) ELSE i
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 \/ s = "" THEN "" ELSE SubSeq(s, 1, IF i > Len(s) THEN Len(s) ELSE i)
TrimSet(s, S) == LET i == SkipSet(s, S, 1) j == BackSet(s, S, Len(s)) IN IF i > j THEN "" ELSE SubSeq(s, i, j)
Trim(s) == TrimSet(s, BlankSet)
AllIn(s, S) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in S

RECURSIVE SplitRec(_, _, _, _)
SplitRec(s, t, i, acc) == LET j == FindFrom(s, t, i) IN
  IF j = 0 THEN Append(acc, From(s, i)) ELSE SplitRec(s, t, j + Len(t), Append(acc, IF j = i THEN "" ELSE SubSeq(s, i, j - 1)))
Split(s, t) == SplitRec(s, t, 1, <<>>)
RECURSIVE JoinRec(_, _, _, _)
JoinRec(q, t, i, acc) == IF i > Len(q) THEN acc ELSE JoinRec(q, t, i + 1, IF i = 1 THEN q[1] ELSE acc \o t \o q[i])
Join(q, t) == JoinRec(<<>> \o q, t, 1, "")
\* strings.Split on a character class with +: maximal runs of S separate (empty ends kept, as in regexp.Split)
RECURSIVE SplitRunsRec(_, _, _, _)
SplitRunsRec(s, S, i, acc) == LET j == FindSetFrom(s, S, i) IN
  IF j = 0 THEN Append(acc, From(s, i))
  ELSE SplitRunsRec(s, S, SkipSet(s, S, j), Append(acc, IF j = i THEN "" ELSE SubSeq(s, i, j - 1)))
SplitRuns(s, S) == SplitRunsRec(s, S, 1, <<>>)
NonEmpty(q) == SelectSeq(q, LAMBDA w : w # "")
\* runs of two or more blanks become one space
RECURSIVE NormRec(_, _, _)
NormRec(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET ch == SubSeq(s, i, i) IN
       IF ch \in WsSet
       THEN LET j == SkipSet(s, WsSet, i) IN NormRec(s, j, acc \o (IF j > i + 1 THEN " " ELSE ch))
       ELSE NormRec(s, i + 1, acc \o ch)
Norm(s) == NormRec(s, 1, "")
RECURSIVE ReplRec(_, _, _, _, _)
ReplRec(s, t, u, i, acc) == LET j == FindFrom(s, t, i) IN
  IF j = 0 THEN acc \o From(s, i) ELSE ReplRec(s, t, u, j + Len(t), (IF j = i THEN acc ELSE acc \o SubSeq(s, i, j - 1)) \o u)
ReplaceAll(s, t, u) == ReplRec(s, t, u, 1, "")
RECURSIVE FilterRec(_, _, _, _)
FilterRec(s, S, i, acc) == IF i > Len(s) THEN acc
  ELSE FilterRec(s, S, i + 1, IF SubSeq(s, i, i) \in S THEN acc ELSE acc \o SubSeq(s, i, i))
DropSet(s, S) == FilterRec(s, S, 1, "")
DigVal(ch) == (CHOOSE j \in 1..10 : SubSeq(DIGIT, j, j) = ch) - 1
RECURSIVE NumRec(_, _, _)
NumRec(s, i, acc) == IF i > Len(s) THEN acc ELSE NumRec(s, i + 1, acc * 10 + DigVal(SubSeq(s, i, i)))
Num(s) == NumRec(s, 1, 0)
IsNum(s) == s # "" /\ AllIn(s, DigitSet)
=============================================================================
