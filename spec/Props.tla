------------------------------- MODULE Props -------------------------------
(* What the listed properties say about the outcome of an extraction.  The
   predicates take a flattened tree (see Tree!Flat) or a text in tokens, so
   that they apply to the specification's own outcome (Inv_ invariants) as
   well as to what was observed of the real code (Aspect).                    *)
EXTENDS Extract

Range(q) == {q[i] : i \in 1..Len(q)}
NameAt(t) == LET Q == {a \in t[3] : a[1] = "data-n"} IN IF Q = {} THEN "" ELSE (CHOOSE a \in Q : TRUE)[2]
ValAt(t, n) == LET Q == {a \in t[3] : a[1] = n} IN IF Q = {} THEN "" ELSE (CHOOSE a \in Q : TRUE)[2]
HasAt(t, n) == \E a \in t[3] : a[1] = n
Inside(R, i, g) == \E h \in 1..(i - 1) : R[h][2] = g /\ R[h][1] < R[i][1] /\ \A m \in (h + 1)..i : R[m][1] > R[h][1]
Els(R) == {i \in 1..Len(R) : R[i][2] # ""}

----------------------------------------------------------------------------
(* C04 *)
Forbidden == {"script", "noscript", "style", "link", "input", "textarea", "select", "button", "footer", "aside", "h1"}
CleanTree(R) == \A i \in Els(R) :
  /\ R[i][2] \notin Forbidden
  /\ R[i][2] = "svg" \/ Inside(R, i, "svg") \/
     \A a \in R[i][3] : a[1] \notin (Presentational \cup (IF R[i][2] \in SizedTags THEN {"width", "height"} ELSE {}))
(* C05 *)
NoJs(R) == \A i \in Els(R) : R[i][2] = "a" => ~IsJsLink(ValAt(R[i], "href"))
(* C07 *)
ClassesOk(R) == K.keep \/ \A i \in Els(R) : HasAt(R[i], "class") =>
  LET q == SplitRuns(ValAt(R[i], "class"), WsSet) IN q # <<>> /\ \A j \in 1..Len(q) : q[j] \in Preserved
(* C08 *)
\* the chunks of the body, each with its place
RECURSIVE PlacesR(_, _, _)
PlacesR(x, i, acc) == IF i > Len(x) THEN acc ELSE PlacesR(x, i + 1, IF x[i] > 0 THEN Append(acc, x[i]) ELSE acc)
BodyChunks == PlacesR(Text(Load, Body), 1, <<>>)
Place(B, t) == IF InSeq(B, t) THEN IndexOf(B, t) ELSE 0
SelectedText(x) == LET B == BodyChunks Q == PlacesR(x, 1, <<>>) IN
  /\ \A i \in 1..Len(x) : x[i] >= -2
  /\ \A i \in 1..Len(Q) : Place(B, Q[i]) > (IF i = 1 THEN 0 ELSE Place(B, Q[i - 1]))
RECURSIVE TextOfR(_, _, _)
TextOfR(R, i, acc) == IF i > Len(R) THEN acc ELSE TextOfR(R, i + 1, acc \o R[i][4])
TextOf(R) == TextOfR(R, 1, <<>>)
OneContainer(R) ==
  \/ R = <<>>
  \/ /\ R[1][1] = 1 /\ R[1][2] = "div" /\ ValAt(R[1], "id") = "readability-page-1"
     /\ "page" \in Range(SplitRuns(ValAt(R[1], "class"), WsSet))
     /\ \A i \in 2..Len(R) : R[i][1] > 1
(* C11 *)
HiddenNode(i) == LET m == Marks(K.doc[i].a) IN m.hid \/ m.dlg \/ m.rol
HiddenChunks == LET L == Load H == {i \in 1..Len(L) : L[i].g # "" /\ InSeq(Anc(L, i), Body) /\ HiddenNode(i)} IN
  UNION {{t \in Range(Text(L, i)) : t > 0} : i \in H}
NothingHidden(x) == LET H == HiddenChunks IN \A i \in 1..Len(x) : x[i] \notin H

(* C29 *)
Players(R) == \A i \in Els(R) : R[i][2] \in {"iframe", "embed"} => \E a \in R[i][3] : IsVideo(a[2])

----------------------------------------------------------------------------
(* the specification's own outcome *)
Ok == pc = "done" /\ res.out = "ok" /\ ~amb
Inv_Clean == Ok => CleanTree(OutTree)
Inv_NoJs == Ok => NoJs(OutTree)
Inv_Classes == Ok => ClassesOk(OutTree)
Inv_Selected == Ok => SelectedText(OutText) /\ TextOf(OutTree) = OutText /\ OneContainer(OutTree)
Inv_Hidden == Ok => NothingHidden(OutText)
Inv_Players == Ok => Players(OutTree)
\* while it runs: the page is a tree, nothing is invented, retries start from the page as it was
Inv_Structure == pc \in {"grab", "select", "join", "decide", "done"} => WellFormed(T, HTML) /\ (art # 0 => WellFormed(T, art))
Inv_Retry == pc = "grab" => (atts = <<>> \/ T = T0) /\ Len(atts) <= 3 /\ flags = [i \in 0..3 |->
                 IF i = 0 THEN {"strip", "weight", "clean"} ELSE IF i = 1 THEN {"weight", "clean"} ELSE IF i = 2 THEN {"clean"} ELSE {}][Len(atts)]
Inv_Best == pc = "links" /\ res.exh => \A i \in 1..Len(atts) : atts[i].len <= TLen(T, art) /\ atts[i].len < K.thr

----------------------------------------------------------------------------
(* what was observed of the real code *)
O == K.obs
ObsOk == O.out = "ok"
ObsTree == <<>> \o [i \in 1..Len(O.tree) |-> <<O.tree[i][1], O.tree[i][2],
              {O.tree[i][3][h] : h \in 1..Len(O.tree[i][3])}, O.tree[i][4]>>]
\* elements that are in both trees, by name
Pairs(P, R) == LET A == {i \in 1..Len(P) : NameAt(P[i]) # ""} B == {j \in 1..Len(R) : NameAt(R[j]) # ""} IN
  {ij \in A \X B : NameAt(P[ij[1]]) = NameAt(R[ij[2]])}
Volatile == {"class", "href", "src", "srcset", "poster", "data-old-src", "data-old-srcset"}
SameVals(P, R, S) == \A ij \in Pairs(P, R) : \A n \in S : ValAt(P[ij[1]], n) = ValAt(R[ij[2]], n)
\* aspects of the comparison; R is the observed tree, P the specified one
Aspect(a, P, R) ==
  CASE a = "tree" -> P = R
    [] a = "lens" -> TRUE
    [] a = "text" -> OutText = O.text
    [] a = "excerpt" -> (IF "mex" \in DOMAIN K THEN K.mex ELSE OutExcerpt) = O.exc
    [] a = "byline" -> (IF "mby" \in DOMAIN K THEN K.mby ELSE byl) = O.byl
    [] a = "dir" -> res.exh \/ res.dir = O.dir
    [] a = "lang" -> OutLang = O.lang
    [] a = "clean" -> /\ CleanTree(R)
                      /\ \A ij \in Pairs(P, R) : /\ P[ij[1]][2] = R[ij[2]][2]
                                                 /\ {x \in P[ij[1]][3] : x[1] \notin Volatile} = {x \in R[ij[2]][3] : x[1] \notin Volatile}
    [] a = "nojs" -> NoJs(R) /\ \A ij \in Pairs(P, R) : (P[ij[1]][2] = "a") = (R[ij[2]][2] = "a")
    [] a = "uris" -> SameVals(P, R, {"href", "src", "srcset", "poster"})
    [] a = "classes" -> ClassesOk(R) /\ SameVals(P, R, {"class", "id"})
    [] a = "selected" -> SelectedText(O.text) /\ TextOf(R) = O.text /\ O.same /\ O.len = O.rl /\ OneContainer(R)
    [] a = "hidden" -> NothingHidden(O.text) /\ NothingHidden(TextOf(R))
    [] a = "players" -> Players(R) /\ \A g \in {"iframe", "embed", "object"} :
                          Cardinality({i \in 1..Len(P) : P[i][2] = g}) = Cardinality({i \in 1..Len(R) : R[i][2] = g})
    [] a = "images" -> SameVals(P, R, {"src", "srcset", "data-old-src", "data-old-srcset"})
                       /\ Cardinality({i \in 1..Len(P) : P[i][2] = "img"}) = Cardinality({i \in 1..Len(R) : R[i][2] = "img"})
Outcome == CASE O.out = "ok" -> res.out = "ok"
             [] O.out = "err" -> res.out \in {"none", "limit"}
             [] OTHER -> FALSE
Diff ==
  IF ~Outcome THEN (IF InSeq(K.cmp, "outcome") \/ O.out \notin {"ok", "err"} THEN {"outcome"} ELSE {})
  ELSE IF ~ObsOk THEN {}
  ELSE LET P == OutTree R == ObsTree IN {a \in Range(K.cmp) \ {"outcome"} : ~Aspect(a, P, R)}
Pred == [tree |-> OutTree, text |-> OutText, exc |-> OutExcerpt, byl |-> byl, dir |-> res.dir, lvl |-> res.lvl]
Check == pc = "done" =>
  IF amb THEN PrintT("AMB " \o ToString(c))
  ELSE \E d \in {Diff} :
       IF d = {} THEN (res.out = "ok" => PrintT("OK " \o ToString(c) \o " " \o ToString(res.lvl) \o (IF res.exh THEN "x" ELSE "")
                   \o (IF InSeq(K.cmp, "lens") THEN " " \o ToJson([i \in 1..Len(atts) |-> atts[i].len]) ELSE "")))
       ELSE PrintT("MISMATCH " \o ToString(c) \o " " \o ToString(d) \o " " \o
                   (IF res.out = "ok" THEN ToJson(Pred) ELSE res.out))
=============================================================================
