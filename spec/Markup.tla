------------------------------- MODULE Markup -------------------------------
(* Reading and writing markup.  Three machines run one after the other:
     read   takes the tokens of the source one by one and builds the tree that
            the source denotes (an open-element stack);
     scan   takes the markup that the real code wrote for its tree, character
            by character, as any reader of markup would;
     done   compares: what was read, what was written, what is read back.
   A tree is the sequence of its nodes in document order,
   <<depth, name or "", {<<attribute, value>>}, text>>.                       *)
EXTENDS Str, FiniteSets, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc, i, open, out, want
vars == <<c, pc, i, open, out, want>>
K == Cases[c]

----------------------------------------------------------------------------
(* character references *)
HexSet == DigitSet \cup CharSet("abcdefABCDEF")
HexVal(ch) == IF ch \in DigitSet THEN DigVal(ch) ELSE LET l == Lower(ch) IN 9 + (CHOOSE j \in 1..6 : SubSeq("abcdef", j, j) = l)
RECURSIVE HexNum(_, _, _)
HexNum(s, j, acc) == IF j > Len(s) THEN acc ELSE HexNum(s, j + 1, acc * 16 + HexVal(SubSeq(s, j, j)))
Named == ("lt" :> "<") @@ ("gt" :> ">") @@ ("amp" :> "&") @@ ("quot" :> "\"") @@ ("apos" :> "'")
CharOf(n) == LET Q == {x \in {K.chars[j] : j \in 1..Len(K.chars)} : x[1] = n} IN
             IF Q = {} THEN "�" ELSE (CHOOSE x \in Q : TRUE)[2]
\* the reference that starts at the & in position j: its end (the semicolon), or 0
RefEnd(s, j) ==
  LET e == FindFrom(s, ";", j) IN
  IF e = 0 THEN 0
  ELSE LET b == IF e = j + 1 THEN "" ELSE SubSeq(s, j + 1, e - 1) IN
       IF b \in DOMAIN Named THEN e
       ELSE IF Len(b) >= 3 /\ SubSeq(b, 1, 1) = "#" /\ SubSeq(b, 2, 2) \in {"x", "X"}
       THEN LET h == From(b, 3) IN IF AllIn(h, HexSet) /\ Len(h) <= 6 THEN e ELSE 0
       ELSE IF Len(b) >= 2 /\ SubSeq(b, 1, 1) = "#"
       THEN LET h == From(b, 2) IN IF AllIn(h, DigitSet) /\ Len(h) <= 7 THEN e ELSE 0
       ELSE 0
RefChar(b) == IF b \in DOMAIN Named THEN Named[b]
              ELSE IF SubSeq(b, 2, 2) \in {"x", "X"} THEN CharOf(HexNum(From(b, 3), 1, 0)) ELSE CharOf(Num(From(b, 2)))
\* every reference is decoded once: what comes out of one is never looked at again
RECURSIVE DecodeRec(_, _, _)
DecodeRec(s, j, acc) ==
  LET a == FindFrom(s, "&", j) IN
  IF a = 0 THEN acc \o From(s, j)
  ELSE LET pre == IF a = j THEN acc ELSE acc \o SubSeq(s, j, a - 1)
           e == RefEnd(s, a) IN
       IF e = 0 THEN DecodeRec(s, a + 1, pre \o "&") ELSE DecodeRec(s, e + 1, pre \o RefChar(SubSeq(s, a + 1, e - 1)))
Decode(s) == DecodeRec(s, 1, "")

----------------------------------------------------------------------------
(* trees *)
\* texts that follow each other are one text, empty ones are none
AddText(t, d, x) == IF x = "" THEN t
  ELSE LET n == Len(t) IN
       IF n > 0 /\ t[n][2] = "" /\ t[n][1] = d THEN [t EXCEPT ![n] = <<d, "", {}, @[4] \o x>>] ELSE Append(t, <<d, "", {}, x>>)
RECURSIVE NormRecT(_, _, _)
NormRecT(q, j, acc) == IF j > Len(q) THEN acc
  ELSE NormRecT(q, j + 1, IF q[j][2] = "" THEN AddText(acc, q[j][1], q[j][4])
                          ELSE Append(acc, <<q[j][1], q[j][2], {q[j][3][h] : h \in 1..Len(q[j][3])}, "">>))
Tree(q) == NormRecT(<<>> \o q, 1, <<>>)
Local(n) == LET l == Lower(n) j == FindLast(l, ":") IN From(l, j + 1)
DecodeAttrs(a) == {<<Lower(a[h][1]), Decode(a[h][2])>> : h \in 1..Len(a)}

----------------------------------------------------------------------------
Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ open = <<>> /\ out = <<>>
        /\ want = (IF K.kind = "tree" THEN Tree(K.tree) ELSE <<>>)
        /\ pc = (IF K.kind = "tree" THEN "scan" ELSE "read")

(* reading the tokens of the source *)
\* a script that begins with a comment, as scripts once did, counts for empty
RawText(s) == IF IsAt(s, "<!", 1) \/ IsAt(s, "<?", 1) THEN "" ELSE Decode(s)
Tok == K.toks[i]
Depth == Len(open) + 1
Put(x) == out' = Append(out, x)
Read ==
  /\ pc = "read" /\ i <= Len(K.toks)
  /\ i' = i + 1 /\ UNCHANGED <<c, pc, want>>
  /\ CASE Tok[1] = "start" -> Put(<<Depth, Local(Tok[2]), DecodeAttrs(Tok[3]), "">>) /\ open' = Append(open, Lower(Tok[2]))
       [] Tok[1] = "empty" -> Put(<<Depth, Local(Tok[2]), DecodeAttrs(Tok[3]), "">>) /\ open' = open
       \* an end tag closes the innermost open element if it has its name, and nothing otherwise
       [] Tok[1] = "end" -> out' = out /\ open' = (IF open # <<>> /\ open[Len(open)] = Lower(Tok[2]) THEN SubSeq(open, 1, Len(open) - 1) ELSE open)
       [] Tok[1] = "text" -> out' = AddText(out, Depth, Decode(Tok[2])) /\ open' = open
       [] Tok[1] = "cdata" -> out' = AddText(out, Depth, Tok[2]) /\ open' = open
       [] Tok[1] = "raw" -> out' = AddText(Append(out, <<Depth, Local(Tok[2]), {}, "">>), Depth + 1, RawText(Tok[3])) /\ open' = open
       [] Tok[1] = "comment" -> UNCHANGED <<out, open>>
ReadAll == /\ pc = "read" /\ i > Len(K.toks)
           /\ want' = out /\ pc' = "scan" /\ i' = 1 /\ open' = <<>> /\ out' = <<>> /\ UNCHANGED c

(* scanning what the real code wrote; pc "bad" if it is not markup of this simple kind *)
H == K.obs.html
NameEnd(j) == LET e == FindSetFrom(H, WsSet \cup {"/", ">", "="}, j) IN IF e = 0 THEN Len(H) + 1 ELSE e
RECURSIVE AttrsFrom(_, _)         \* <<attributes, position behind the tag, closed by a slash?>>; position 0 if malformed
AttrsFrom(j0, acc) ==
  LET j == SkipSet(H, WsSet, j0) IN
  IF j > Len(H) THEN <<acc, 0, FALSE>>
  ELSE IF SubSeq(H, j, j) = ">" THEN <<acc, j + 1, FALSE>>
  ELSE IF IsAt(H, "/>", j) THEN <<acc, j + 2, TRUE>>
  ELSE LET e == NameEnd(j) IN
       IF e = j \/ ~IsAt(H, "=", e) \/ e + 1 > Len(H) THEN <<acc, 0, FALSE>>
       ELSE LET q == SubSeq(H, e + 1, e + 1) f == IF q \in {"\"", "'"} THEN FindFrom(H, q, e + 2) ELSE 0 IN
            IF f = 0 THEN <<acc, 0, FALSE>>
            ELSE AttrsFrom(f + 1, acc \cup {<<SubSeq(H, j, e - 1), Decode(IF f = e + 2 THEN "" ELSE SubSeq(H, e + 2, f - 1))>>})
Scan ==
  /\ pc = "scan" /\ i <= Len(H)
  /\ UNCHANGED <<c, want>>
  /\ IF SubSeq(H, i, i) # "<"
     THEN LET e == FindFrom(H, "<", i) IN
          /\ out' = AddText(out, Depth, Decode(IF e = 0 THEN From(H, i) ELSE SubSeq(H, i, e - 1)))
          /\ i' = (IF e = 0 THEN Len(H) + 1 ELSE e) /\ UNCHANGED <<open, pc>>
     ELSE IF IsAt(H, "</", i)
     THEN LET e == FindFrom(H, ">", i) n == IF e <= i + 2 THEN "" ELSE SubSeq(H, i + 2, e - 1) IN
          IF e = 0 \/ open = <<>> \/ open[Len(open)] # n THEN pc' = "bad" /\ UNCHANGED <<i, open, out>>
          ELSE open' = SubSeq(open, 1, Len(open) - 1) /\ i' = e + 1 /\ UNCHANGED <<out, pc>>
     ELSE LET e == NameEnd(i + 1) n == IF e <= i + 1 THEN "" ELSE SubSeq(H, i + 1, e - 1) r == AttrsFrom(e, {}) IN
          IF n = "" \/ SubSeq(n, 1, 1) \notin LowerSet \/ r[2] = 0 THEN pc' = "bad" /\ UNCHANGED <<i, open, out>>
          ELSE /\ Put(<<Depth, n, r[1], "">>)
               /\ open' = (IF r[3] THEN open ELSE Append(open, n))
               /\ i' = r[2] /\ pc' = pc
ScanAll == /\ pc = "scan" /\ i > Len(H)
           /\ pc' = (IF open = <<>> THEN "done" ELSE "bad") /\ UNCHANGED <<c, i, open, out, want>>
Next == Read \/ ReadAll \/ Scan \/ ScanAll
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what the specification says of itself: depths are those of a tree
Shape == \A j \in 1..Len(out) : out[j][1] >= 1 /\ out[j][1] <= (IF j = 1 THEN 1 ELSE out[j - 1][1] + (IF out[j - 1][2] = "" THEN 0 ELSE 1))
\* texts never touch and are never empty
Texts == \A j \in 1..Len(out) : out[j][2] = "" => out[j][4] # "" /\ (j > 1 => ~(out[j - 1][2] = "" /\ out[j - 1][1] = out[j][1]))
Diff == IF pc = "bad" THEN {"what is written is not markup"}
        ELSE (IF Tree(K.obs.tree) = want THEN {} ELSE {"what is read"})
             \cup (IF out = want THEN {} ELSE {"what is written"})
             \cup (IF Tree(K.obs.back) = want THEN {} ELSE {"what is read back"})
             \cup (IF Tree(K.obs.back2) = want THEN {} ELSE {"what is read back twice"})
Told == pc \in {"done", "bad"} =>
  \E d \in {Diff} : PrintT((IF d = {} THEN "GOOD " ELSE "BAD ") \o ToString(c) \o " " \o ToJson(d) \o
                           (IF d = {} THEN "" ELSE " " \o ToJson(want)))
=============================================================================
