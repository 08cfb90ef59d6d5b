------------------------------ MODULE Outcome ------------------------------
(* What a reader of any source can come to.  The machine goes over the pieces
   of the source as they were put together (K.pieces) to see whether there is a
   body, then takes the reader through its life: built or rejected, then a
   result or an error.  A piece is
     "x"           anything else,
     "body"        a start tag of a body,
     <<"raw", n>>  a start tag that makes the rest mere text up to the end tag n,
     <<"end", n>>  an end tag,
     "all"         something that makes all of the rest mere text.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc, i, raw, body
vars == <<c, pc, i, raw, body>>
K == Cases[c]
P == K.pieces[i]

Init == c \in 1..Len(Cases) /\ pc = "read" /\ i = 1 /\ raw = "" /\ body = FALSE
Read == /\ pc = "read" /\ i <= Len(K.pieces) /\ i' = i + 1
        /\ raw' = (IF raw = "all" THEN raw
                   ELSE IF raw # "" THEN (IF P[1] = "end" /\ P[2] = raw THEN "" ELSE raw)
                   ELSE IF P[1] = "raw" THEN P[2] ELSE IF P[1] = "all" THEN "all" ELSE raw)
        /\ body' = (body \/ (raw = "" /\ P[1] = "body"))
        /\ UNCHANGED <<c, pc>>
New == /\ pc = "read" /\ i > Len(K.pieces) /\ pc' = (IF K.empty \/ ~body THEN "rejected" ELSE "built") /\ UNCHANGED <<c, i, raw, body>>
\* extraction of any page ends in one of two ways
Parse(o) == /\ pc = "built" /\ pc' = o /\ UNCHANGED <<c, i, raw, body>>
Next == Read \/ New \/ Parse("result") \/ Parse("error")
Spec == Init /\ [][Next]_vars

Inv_Empty == K.empty /\ pc # "read" => pc = "rejected"
Ends == pc \in {"rejected", "result", "error"}
\* one of the ends is what was observed, and the question was answered
Fits == K.obs.life = pc /\ K.obs.ask \in {"yes", "no"}
Told == Ends /\ Fits => PrintT("FITS " \o ToString(c) \o " " \o pc)
=============================================================================
