------------------------------ MODULE Extract ------------------------------
(* The extraction of an article as a state machine: one behaviour per case.
   Every edit of the page, every judgement about a node and every attempt is
   a step; the observation recorded from the real code for the same page is
   compared in the last state (see the Obs_* operators in Conform).          *)
EXTENDS Rules, Uri

VARIABLES pc,      \* what is to be done next
          T,       \* the page (arena)
          T0,      \* the page as every attempt finds it
          cur,     \* the node being visited
          els,     \* elements to score
          cands,   \* candidates: elements that have a score
          dup,     \* a heading repeating the title may still be removed
          flags,   \* active filters
          byl,     \* byline found (tokens)
          atts,    \* attempts that were too short
          art,     \* root of the article
          top,     \* top candidate
          par,     \* its parent
          made,    \* the top candidate was made up of the whole body
          amb,     \* floating point decides a tie: no prediction
          res      \* outcome
vars == <<c, pc, T, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

HTML == 1
Body == K.body

----------------------------------------------------------------------------
Load == <<>> \o [i \in 1..Len(K.doc) |->
  LET n == K.doc[i] IN
  [g |-> n.g, a |-> n.a, k |-> n.k, p |-> n.p, x |-> n.x, s |-> <<>>, d |-> 0, m |-> Marks(n.a)]]

Init ==
  /\ c \in 1..Len(Cases)
  /\ pc = "limit" /\ T = Load /\ T0 = <<>> /\ cur = 0 /\ els = <<>> /\ cands = <<>> /\ dup = TRUE
  /\ flags = {"strip", "weight", "clean"} /\ byl = <<>> /\ atts = <<>> /\ art = 0 /\ top = 0 /\ par = 0
  /\ made = FALSE /\ amb = FALSE /\ res = [out |-> ""]

Keep(S) == \A v \in S : TRUE   \* documentation only

----------------------------------------------------------------------------
(* the element limit *)
Limit ==
  /\ pc = "limit"
  /\ LET n == (IF K.bare THEN 0 ELSE 1) + Len(Desc(T, HTML)) IN
     IF K.max > 0 /\ n > K.max THEN pc' = "done" /\ res' = [out |-> "limit"]
     ELSE pc' = "unwrap" /\ UNCHANGED res
  /\ UNCHANGED <<c, T, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb>>

(* images deferred to noscript elements *)
ImgAttrs == {"src", "srcset", "data-src", "data-srcset"}
NamesImage(A) == \E j \in 1..Len(A) : A[j][1] \in ImgAttrs \/ HasExt(A[j][2])
DropBareImages(U) == LET Q == SelectSeq(ByTag(U, HTML, "img"), LAMBDA i : ~NamesImage(U[i].a)) IN DetachAll(U, Q, 1)
RECURSIVE SingleImage(_, _)
SingleImage(U, i) ==
  \/ U[i].g = "img"
  \/ LET E == ElKids(U, i) IN Len(E) = 1 /\ BlankTok(Text(U, i)) /\ SingleImage(U, E[1])
\* the content of a noscript, read anew: a container that is a copy of it
RECURSIVE CopyKs(_, _, _, _)
CopyKs(U, ks, j, q) ==
  IF j > Len(ks) THEN U
  ELSE LET id == Len(U) + 1
           V == Append([U EXCEPT ![q].k = Append(@, id)], [U[ks[j]] EXCEPT !.k = <<>>, !.p = q])
       IN CopyKs(CopyKs(V, U[ks[j]].k, 1, id), ks, j + 1, q)
RECURSIVE TakeAttrs(_, _, _)
TakeAttrs(new, old, j) ==
  IF j > Len(old) THEN new
  ELSE LET n == old[j][1] v == old[j][2] IN
    IF v # "" /\ (n \in {"src", "srcset"} \/ HasExt(v)) /\ Attr(new, n) # v
    THEN TakeAttrs(SetAttr(new, IF HasAttr(new, n) THEN "data-old-" \o n ELSE n, v), old, j + 1)
    ELSE TakeAttrs(new, old, j + 1)
UnwrapOne(U, ns) ==
  LET id == Len(U) + 1
      V == CopyKs(Append(U, NewEl("div", 0, <<>>)), U[ns].k, 1, id)
      prev == PrevSib(V, ns)
  IN IF SingleImage(V, id) /\ V[id].g = "div" /\ prev # 0 /\ SingleImage(V, prev)
     THEN LET oldImg == IF V[prev].g = "img" THEN prev ELSE ByTag(V, prev, "img")[1]
              newImg == ByTag(V, id, "img")[1]
          IN Replace([V EXCEPT ![newImg].a = TakeAttrs(@, V[oldImg].a, 1)], prev, ElKids(V, id)[1])
     ELSE U
RECURSIVE UnwrapAll(_, _, _)
UnwrapAll(U, Q, j) == IF j > Len(Q) THEN U ELSE UnwrapAll(UnwrapOne(U, Q[j]), Q, j + 1)
Unwrap ==
  /\ pc = "unwrap" /\ pc' = "scripts"
  /\ T' = LET U == DropBareImages(T) IN UnwrapAll(U, ByTag(U, HTML, "noscript"), 1)
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

(* scripts and style sheets *)
Scripts ==
  /\ pc = "scripts" /\ pc' = "brs"
  /\ T' = DetachAll(T, ByTags(T, HTML, <<"script", "noscript", "style">>), 1)
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

(* runs of line breaks *)
RECURSIVE SkipWs(_, _, _)      \* first index at or after j that is not blank text
SkipWs(U, ks, j) == IF j <= Len(ks) /\ U[ks[j]].g = "" /\ WsTok(U[ks[j]].x) THEN SkipWs(U, ks, j + 1) ELSE j
RECURSIVE RunOf(_, _, _, _)    \* the further line breaks of the run
RunOf(U, ks, j, acc) == LET n == SkipWs(U, ks, j) IN
  IF n <= Len(ks) /\ U[ks[n]].g = "br" THEN RunOf(U, ks, n + 1, Append(acc, ks[n])) ELSE acc
RECURSIVE Absorb(_, _, _, _)   \* what the paragraph takes in
Absorb(U, ks, j, acc) ==
  IF j > Len(ks) THEN acc
  ELSE IF U[ks[j]].g = "br" /\ LET n == SkipWs(U, ks, j + 1) IN n <= Len(ks) /\ U[ks[n]].g = "br" THEN acc
  ELSE IF ~Phrasing(U, ks[j]) THEN acc
  ELSE Absorb(U, ks, j + 1, Append(acc, ks[j]))
RECURSIVE TrimTail(_, _)
TrimTail(U, i) == LET ks == U[i].k IN
  IF ks # <<>> /\ IsBlank(U, ks[Len(ks)]) THEN TrimTail(Detach(U, ks[Len(ks)]), i) ELSE U
RECURSIVE AppendAll(_, _, _, _)
AppendAll(U, q, Q, j) == IF j > Len(Q) THEN U ELSE AppendAll(AppendTo(U, q, Q[j]), q, Q, j + 1)
BrRun(U, br) ==
  IF U[br].p = 0 THEN U
  ELSE LET q == U[br].p
           run == RunOf(U, U[q].k, IndexOf(U[q].k, br) + 1, <<>>)
       IN IF run = <<>> THEN U
          ELSE LET V == DetachAll(U, run, 1)
                   id == Len(V) + 1
                   W == Replace(Append(V, NewEl("p", 0, <<>>)), br, id)
                   X == AppendAll(W, id, Absorb(W, W[q].k, IndexOf(W[q].k, id) + 1, <<>>), 1)
                   Y == TrimTail(X, id)
               IN IF Y[q].g = "p" THEN [Y EXCEPT ![q].g = "div"] ELSE Y
RECURSIVE BrRuns(_, _, _)
BrRuns(U, Q, j) == IF j > Len(Q) THEN U ELSE BrRuns(BrRun(U, Q[j]), Q, j + 1)
Brs ==
  /\ pc = "brs" /\ pc' = "grab"
  /\ \E U \in {BrRuns(T, ByTag(T, Body, "br"), 1)} :
     \E V \in {<<>> \o [i \in 1..Len(U) |-> IF U[i].g = "font" THEN [U[i] EXCEPT !.g = "span"] ELSE U[i]]} :
     T' = V /\ T0' = Merged(V, Body)
  /\ UNCHANGED <<c, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

----------------------------------------------------------------------------
(* an attempt *)
Grab ==
  /\ pc = "grab" /\ pc' = "visit"
  /\ cur' = HTML /\ els' = <<>> /\ cands' = <<>> /\ dup' = TRUE /\ made' = FALSE /\ art' = 0 /\ top' = 0 /\ par' = 0
  /\ UNCHANGED <<c, T, T0, flags, byl, atts, amb, res>>

Drop(U, i) == Detach(U, i)
HeadingTags == {"h1", "h2", "h3", "h4", "h5", "h6"}
ByText(U, i) == TrimTok(Text(U, i))
ValidByline(x) == RawLen(x) > 0 /\ RawLen(x) < 100

\* the verdict on a node: why it goes, or "keep"
Verdict(U, i) ==
  LET n == U[i] IN
  IF n.m.hid THEN "hidden"
  ELSE IF n.m.dlg THEN "dialog"
  ELSE IF byl = <<>> /\ n.m.by /\ ValidByline(ByText(U, i)) THEN "byline"
  ELSE IF dup /\ n.g \in {"h1", "h2"} /\ Similar(K.title, Words(TrimTok(Text(U, i)))) THEN "heading"
  ELSE IF "strip" \in flags /\ n.m.unl /\ ~HasAncestor(U, i, "table", 3, True1) /\ ~HasAncestor(U, i, "code", 3, True1)
          /\ n.g \notin {"body", "a"} THEN "unlikely"
  ELSE IF n.m.rol THEN "role"
  ELSE IF n.g \in {"div", "section", "header"} \cup HeadingTags /\ NoContent(U, i) THEN "empty"
  ELSE "keep"

\* put inline content of a block into paragraphs
RECURSIVE Wrap(_, _, _, _, _, _)
Wrap(U, n, ks, j, p, out) ==
  IF j > Len(ks) THEN [U EXCEPT ![n].k = out]
  ELSE LET e == ks[j] IN
    IF Phrasing(U, e)
    THEN IF p # 0 THEN Wrap([U EXCEPT ![p].k = Append(@, e), ![e].p = p], n, ks, j + 1, p, out)
         ELSE IF ~IsBlank(U, e)
         THEN LET id == Len(U) + 1 IN
              Wrap(Append([U EXCEPT ![e].p = id], NewEl("p", n, <<e>>)), n, ks, j + 1, id, Append(out, id))
         ELSE Wrap(U, n, ks, j + 1, 0, Append(out, e))
    ELSE Wrap(IF p # 0 THEN TrimTail(U, p) ELSE U, n, ks, j + 1, 0, Append(out, e))

Visit ==
  /\ pc = "visit" /\ cur # 0
  /\ \E v \in {Verdict(T, cur)} :
     IF v # "keep"
     THEN /\ T' = Drop(T, cur)
          /\ cur' = NextNode(T, cur, TRUE)
          /\ byl' = IF v = "byline" THEN ByText(T, cur) ELSE byl
          /\ dup' = IF v = "heading" THEN FALSE ELSE dup
          /\ UNCHANGED <<els, amb>>
     ELSE
     \E e1 \in {IF T[cur].g \in TagsToScore THEN Append(els, cur) ELSE els} :
     IF T[cur].g # "div"
     THEN els' = e1 /\ cur' = NextNode(T, cur, FALSE) /\ UNCHANGED <<T, byl, dup, amb>>
     ELSE
     \E U \in {Wrap(T, cur, T[cur].k, 1, 0, <<>>)} : \E ld \in {LinkDensity(U, cur)} :
     /\ UNCHANGED <<byl, dup>>
     /\ amb' = (amb \/ (SingleTag(U, cur, "p") /\ LDTie(ld, 1, 4)))
     /\ IF SingleTag(U, cur, "p") /\ LDBelow(ld, 1, 4)
        THEN LET q == ElKids(U, cur)[1] IN T' = Replace(U, cur, q) /\ cur' = q /\ els' = e1
        ELSE IF ~HasBlock(U, cur)
        THEN LET V == [U EXCEPT ![cur].g = "p"] IN
             T' = V /\ els' = Append(e1, cur) /\ cur' = NextNode(V, cur, FALSE)
        ELSE T' = U /\ els' = e1 /\ cur' = NextNode(U, cur, FALSE)
  /\ UNCHANGED <<c, pc, T0, cands, flags, atts, art, top, par, made, res>>
VisitEnd ==
  /\ pc = "visit" /\ cur = 0 /\ pc' = "score"
  /\ UNCHANGED <<c, T, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

----------------------------------------------------------------------------
(* scoring and selection *)
Weight(n) == IF "weight" \in flags THEN n.m.w ELSE 0
\* a score is <<number of 36ths, denominator, whether floating point holds it exactly>>
InitScore(n) == <<36 * (BaseScore(n.g) + Weight(n)), 1, TRUE>>
\* yields <<arena, candidates in order>>
RECURSIVE Credit(_, _, _, _, _)
Credit(U, cs, A, lvl, pts) ==
  IF lvl > Len(A) \/ lvl > 5 THEN <<U, cs>>
  ELSE LET a == A[lvl]
           div == IF lvl = 1 THEN 1 ELSE IF lvl = 2 THEN 2 ELSE 3 * (lvl - 1)
       IN IF a = HTML \/ (K.bare /\ a = Body) THEN <<U, cs>>    \* the root has no score
          ELSE LET fresh == U[a].s = <<>>
                   s0 == IF fresh THEN InitScore(U[a]) ELSE U[a].s
               IN Credit([U EXCEPT ![a].s = <<s0[1] + (36 * pts) \div div, 1, s0[3] /\ Pow2(Reduce(pts, div)[2])>>],
                         IF fresh THEN Append(cs, a) ELSE cs, A, lvl + 1, pts)
Score ==
  /\ pc = "score" /\ els # <<>> /\ els' = Tail(els)
  /\ \E e \in {Head(els)} : \E x \in {Text(T, e)} : \E n \in {NormLen(x)} :
     IF T[e].p = 0 \/ n < 25 THEN UNCHANGED <<T, cands>>
     ELSE \E r \in {Credit(T, cands, Anc(T, e), 1, 2 + AllCommas(x) + Min2(n \div 100, 3))} : T' = r[1] /\ cands' = r[2]
  /\ UNCHANGED <<c, pc, T0, cur, dup, flags, byl, atts, art, top, par, made, amb, res>>
ScoreEnd ==
  /\ pc = "score" /\ els = <<>> /\ pc' = "scale" /\ cur' = 1
  /\ UNCHANGED <<c, T, T0, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>
Scale ==      \* link density takes its share of the score
  /\ pc = "scale" /\ cur <= Len(cands) /\ cur' = cur + 1
  /\ \E ld \in {LinkDensity(T, cands[cur])} :
       T' = [T EXCEPT ![cands[cur]].s = Reduce(@[1] * (ld[2] - ld[1]), ld[2]) \o <<@[3] /\ ld[1] = 0>>]
  /\ UNCHANGED <<c, pc, T0, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>
ScaleEnd ==
  /\ pc = "scale" /\ cur > Len(cands) /\ pc' = "select" /\ cur' = 0
  /\ UNCHANGED <<c, T, T0, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>
\* the best nTop, best first, earlier first among equals
RECURSIVE InsertTop(_, _, _, _)
InsertTop(U, q, e, i) ==
  IF i > K.ntop THEN q
  ELSE IF i > Len(q) \/ SCmp(U[e].s, U[q[i]].s) > 0
       THEN LET r == SubSeq(q, 1, i - 1) \o <<e>> \o SubSeq(q, i, Len(q)) IN SubSeq(r, 1, Min2(Len(r), K.ntop))
       ELSE InsertTop(U, q, e, i + 1)
RECURSIVE TopsR(_, _, _, _)
TopsR(U, cs, j, q) == IF j > Len(cs) THEN q ELSE TopsR(U, cs, j + 1, InsertTop(U, q, cs[j], 1))
\* scores that floating point may confuse
ScoreTie(U, cs) == \E i, j \in 1..Len(cs) : i < j /\ SCmp(U[cs[i]].s, U[cs[j]].s) = 0
                     /\ ~(ExactS(U[cs[i]].s) /\ ExactS(U[cs[j]].s))

\* a candidate whose score is close to the best
Close(s, t) == IF t[1] > 0 THEN RCmp(4 * s[1], s[2], 3 * t[1], t[2]) >= 0
               ELSE IF t[1] = 0 THEN FALSE
               ELSE RCmp(4 * s[1], s[2], 3 * t[1], t[2]) <= 0
CloseTie(s, t) == RCmp(4 * s[1], s[2], 3 * t[1], t[2]) = 0 /\ ~(ExactS(s) /\ ExactS(t))
UptoBody(U, i) == LET A == Anc(U, i) IN
  SelectSeq(A, LAMBDA a : \A j \in 1..Len(A) : A[j] = Body => IndexOf(A, a) < j)
\* a better common ancestor of the close candidates
Common(U, t, alts) ==
  IF Len(alts) < 3 THEN t
  ELSE LET A == UptoBody(U, t)
           Q == SelectSeq(A, LAMBDA a :
                  Len(SelectSeq(alts, LAMBDA b : InSeq(Anc(U, b), a))) >= 3)
       IN IF Q = <<>> THEN t ELSE Q[1]
\* climb while parents score better
RECURSIVE Climb(_, _, _, _, _)
Climb(U, t, A, last, thr) ==
  IF A = <<>> THEN t
  ELSE IF U[A[1]].s = <<>> THEN Climb(U, t, Tail(A), last, thr)
  ELSE LET s == U[A[1]].s IN
    IF SCmp(s, thr) < 0 THEN t
    ELSE IF SCmp(s, last) > 0 THEN A[1]
    ELSE Climb(U, t, Tail(A), s, thr)
Third(s) == <<s[1], 3 * s[2], s[3]>>
RECURSIVE OnlyChild(_, _)
OnlyChild(U, t) == LET q == U[t].p IN
  IF q # 0 /\ U[q].g \notin {"body", "html"} /\ Len(ElKids(U, q)) = 1 THEN OnlyChild(U, q) ELSE t

Select ==
  /\ pc = "select" /\ pc' = "join"
  /\ \E tops \in {IF K.ntop <= 0 THEN <<>> ELSE TopsR(T, cands, 1, <<>>)} :
     LET U == T cs == cands IN
        IF tops = <<>> \/ U[tops[1]].g = "body"
        THEN \* all of the body
             \E id \in {Len(U) + 1} :
             \E W \in {AppendTo(MoveAll(Append(U, NewEl("div", 0, <<>>)), Body, id), Body, id)} :
                /\ T' = [W EXCEPT ![id].s = InitScore(W[id])]
                /\ top' = id /\ par' = Body /\ made' = TRUE
                /\ amb' = (amb \/ ScoreTie(U, cs))
        ELSE \E t0 \in {tops[1]} :
             \E alts \in {SelectSeq(Tail(tops), LAMBDA e : Close(U[e].s, U[t0].s))} :
             \E t1 \in {Common(U, t0, alts)} :
             \E V \in {IF U[t1].s = <<>> THEN [U EXCEPT ![t1].s = InitScore(U[t1])] ELSE U} :
             \E t2 \in {Climb(V, t1, UptoBody(V, t1), V[t1].s, Third(V[t1].s))} :
             \E t3 \in {OnlyChild(V, t2)} :
             \E W \in {IF V[t3].s = <<>> THEN [V EXCEPT ![t3].s = InitScore(V[t3])] ELSE V} :
                /\ T' = W /\ top' = t3 /\ par' = W[t3].p /\ made' = FALSE
                /\ amb' = (amb \/ ScoreTie(U, cs)
                           \/ \E j \in 1..Len(cs) : U[cs[j]].s # <<>> /\
                                 (CloseTie(U[cs[j]].s, U[t0].s)
                                  \/ (SCmp(U[cs[j]].s, Third(U[t1].s)) = 0 /\ U[t1].s # <<>>
                                       /\ ~(ExactS(U[cs[j]].s) /\ ExactS(U[t1].s)))))
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, res>>

(* related siblings *)
Fifth(s) == <<s[1], 5 * s[2], s[3]>>
Ten == <<360, 1, TRUE>>
\* sign of a + b - limit (an integer in 36ths), via integer and fractional parts
SumCmp(a, b, limit) ==
  LET ia == a[1] \div a[2] ib == b[1] \div b[2] ra == a[1] % a[2] rb == b[1] % b[2]
      i == ia + ib - limit
  IN IF i > 0 THEN 1 ELSE IF i < -1 THEN -1
     ELSE IF i = 0 THEN (IF ra = 0 /\ rb = 0 THEN 0 ELSE 1)
     ELSE RCmp(ra, a[2], b[2] - rb, b[2])       \* i = -1: compare ra/da + rb/db with 1
Qualifies(U, sb, t) ==
  LET s == U[sb].s ts == U[t].s
      bonus == Attr(U[sb].a, "class") = Attr(U[t].a, "class") /\ Attr(U[t].a, "class") # ""
      big == SCmp(Fifth(ts), Ten) > 0                     \* the threshold is a fifth of the top score
      score == s # <<>> /\ (IF big THEN (IF bonus THEN s[1] >= 0 ELSE SCmp(s, Fifth(ts)) >= 0)
                            ELSE IF bonus THEN SumCmp(s, Fifth(ts), 360) >= 0 ELSE SCmp(s, Ten) >= 0)
      n == TLen(U, sb) ld == LinkDensity(U, sb)
  IN sb = t \/ score
     \/ (U[sb].g = "p" /\ ((n > 80 /\ LDBelow(ld, 1, 4)) \/ (n < 80 /\ ld[1] = 0 /\ EndsSentence(Text(U, sb)))))
JoinTie(U, sb, t) ==
  LET s == U[sb].s ts == U[t].s IN
  \/ U[sb].g = "p" /\ LDTie(LinkDensity(U, sb), 1, 4)
  \/ s # <<>> /\ sb # t /\ ~(ExactS(s) /\ ExactS(ts))
     /\ (SCmp(s, Fifth(ts)) = 0 \/ SCmp(s, Ten) = 0 \/ s[1] = 0 \/ SumCmp(s, Fifth(ts), 360) = 0)
RECURSIVE JoinAll(_, _, _, _, _)
JoinAll(U, Q, j, t, a) ==
  IF j > Len(Q) THEN U
  ELSE IF Qualifies(U, Q[j], t)
       THEN LET V == AppendTo(U, a, Q[j]) IN
            JoinAll(IF V[Q[j]].g \in {"div", "article", "section", "p"} THEN V ELSE [V EXCEPT ![Q[j]].g = "div"], Q, j + 1, t, a)
       ELSE JoinAll(U, Q, j + 1, t, a)
JoinSiblings ==
  /\ pc = "join" /\ pc' = "styles"
  /\ \E id \in {Len(T) + 1} : \E U \in {Append(T, NewEl("div", 0, <<>>))} : \E Q \in {ElKids(U, par)} :
     /\ art' = id
     /\ T' = JoinAll(U, Q, 1, top, id)
     /\ amb' = (amb \/ \E j \in 1..Len(Q) : JoinTie(U, Q[j], top))
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, top, par, made, res>>

----------------------------------------------------------------------------
(* cleaning the article *)
Presentational == {"align", "background", "bgcolor", "border", "cellpadding", "cellspacing", "frame", "hspace",
                   "rules", "style", "valign", "vspace"}
SizedTags == {"table", "th", "td", "hr", "pre"}
CleanAttrs(n) == DelAttrs(n.a, Presentational \cup (IF n.g \in SizedTags THEN {"width", "height"} ELSE {}))
RECURSIVE NotInSvg(_, _, _, _)
NotInSvg(U, ks, j, acc) ==
  IF j > Len(ks) THEN acc
  ELSE IF U[ks[j]].g \in {"", "svg"} THEN NotInSvg(U, ks, j + 1, acc)
  ELSE NotInSvg(U, ks, j + 1, NotInSvg(U, U[ks[j]].k, 1, Append(acc, ks[j])))
Styles ==
  /\ pc = "styles" /\ pc' = "tables"
  /\ \E Q \in {NotInSvg(T, T[art].k, 1, <<>>)} : \E S \in {{Q[i] : i \in 1..Len(Q)}} :
     T' = <<>> \o [i \in 1..Len(T) |-> IF i \in S THEN [T[i] EXCEPT !.a = CleanAttrs(T[i])] ELSE T[i]]
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

Tables ==
  /\ pc = "tables" /\ pc' = "lazy"
  /\ \E Q \in {ByTag(T, art, "table")} : \E S \in {{Q[i] : i \in 1..Len(Q)}} :
     T' = <<>> \o [i \in 1..Len(T) |-> IF i \in S THEN [T[i] EXCEPT !.d = IF IsDataTable(T, i) THEN 2 ELSE 1] ELSE T[i]]
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

(* deferred images *)
PlaceholderDropped(A) ==
  LET src == Attr(A, "src") ty == B64Type(src) IN
  /\ ty # "" /\ ty # "image/svg+xml"
  /\ \E j \in 1..Len(A) : A[j][1] # "src" /\ HasExt(A[j][2])
  /\ B64Len(src) < 133
IsSvgData(A) == B64Type(Attr(A, "src")) = "image/svg+xml"
CopyTo(v) == IF ExtThenNumber(v) THEN "srcset" ELSE IF ExtAlone(v) THEN "src" ELSE ""
RECURSIVE LazyAttrs(_, _, _)       \* img, picture
LazyAttrs(A, B, j) ==
  IF j > Len(A) THEN B
  ELSE IF A[j][1] \in {"src", "srcset", "alt"} \/ CopyTo(A[j][2]) = "" THEN LazyAttrs(A, B, j + 1)
  ELSE LazyAttrs(A, SetAttr(B, CopyTo(A[j][2]), A[j][2]), j + 1)
FixOne(U, i) ==
  LET A0 == U[i].a
      A == IF A0 # <<>> /\ PlaceholderDropped(A0) THEN DelAttr(A0, "src") ELSE A0
      V == [U EXCEPT ![i].a = A]
      usable == (Attr(A, "src") # "" \/ Attr(A, "srcset") \notin {"", "null"}) /\ ~Has(Lower(Attr(A, "class")), "lazy")
  IN IF IsSvgData(A0) THEN U
     ELSE IF usable THEN V
     ELSE IF U[i].g # "figure" THEN [V EXCEPT ![i].a = LazyAttrs(A, A, 1)]
     ELSE IF ByTags(V, i, <<"img", "picture">>) # <<>> THEN V
     ELSE LET Q == SelectSeq(A, LAMBDA e : e[1] \notin {"src", "srcset", "alt"} /\ CopyTo(e[2]) # "") IN
          IF Q = <<>> THEN V
          ELSE AppendTo(Append(V, [NewEl("img", 0, <<>>) EXCEPT !.a = << <<CopyTo(Q[1][2]), Q[1][2]>> >>]), i, Len(V) + 1)
RECURSIVE FixAll(_, _, _)
FixAll(U, Q, j) == IF j > Len(Q) THEN U ELSE FixAll(FixOne(U, Q[j]), Q, j + 1)
Lazy ==
  /\ pc = "lazy" /\ pc' = "forms"
  /\ T' = FixAll(T, ByTags(T, art, <<"img", "picture", "figure">>), 1)
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

(* conditional cleaning *)
ListHeavy(U, i) == LET L == ByTags(U, i, <<"ul", "ol">>) IN
  10 * Sum([j \in 1..Len(L) |-> TBytes(U, L[j])]) > 9 * TBytes(U, i)
HeadingLight(U, i) ==     \* headings are less than nine tenths of the text
  LET b == TBytes(U, i) H == ByTags(U, i, <<"h1", "h2", "h3", "h4", "h5", "h6">>) IN
  b = 0 \/ 10 * Sum([j \in 1..Len(H) |-> TBytes(U, H[j])]) < 9 * b
Fishy(U, i, g) ==
  LET isData(t) == U[t].d = 2
      isList == g = "ul" \/ (TBytes(U, i) > 0 /\ ListHeavy(U, i))
      w == Weight(U[i])
      D == Desc(U, i)
      N(h) == Len(SelectSeq(D, LAMBDA e : U[e].g = h))
      p == N("p") img == N("img") li == N("li") - 100 input == N("input")
      emb == SelectSeq(D, LAMBDA e : U[e].g \in {"object", "embed", "iframe"})
      x == Text(U, i) n == NormLen(x)
      ld == LinkDensity(U, i)
      inFigure == HasAncestor(U, i, "figure", 3, True1)
      remove == \/ (img > 1 /\ 2 * p < img /\ ~inFigure)
                \/ (~isList /\ li > p)
                \/ input > (p \div 3)
                \/ (~isList /\ HeadingLight(U, i) /\ n < 25 /\ (img = 0 \/ img > 2) /\ ~inFigure)
                \/ (~isList /\ w < 25 /\ LDAbove(ld, 1, 5))
                \/ (w >= 25 /\ LDAbove(ld, 1, 2))
                \/ (Len(emb) = 1 /\ n < 75) \/ Len(emb) > 1
      imageList == /\ isList
                   /\ \A j \in 1..Len(ElKids(U, i)) : Len(ElKids(U, ElKids(U, i)[j])) <= 1
                   /\ img = N("li")
  IN IF g = "table" /\ isData(i) THEN FALSE
     ELSE IF HasAncestor(U, i, "table", 0, isData) THEN FALSE
     ELSE IF HasAncestor(U, i, "code", 3, True1) THEN FALSE
     ELSE IF w < 0 THEN TRUE
     ELSE IF AsciiCommas(x) >= 10 THEN FALSE
     ELSE IF \E j \in 1..Len(emb) : AllowedEmbed(U, emb[j]) THEN FALSE
     ELSE remove /\ ~imageList
FishyTie(U, i) == LET ld == LinkDensity(U, i) IN LDTie(ld, 1, 5) \/ LDTie(ld, 1, 2)
\* innermost and last first; yields <<arena, ambiguous>>
RECURSIVE CondR(_, _, _, _, _)
CondR(U, Q, j, g, am) ==
  IF j < 1 THEN <<U, am>>
  ELSE CondR(IF Fishy(U, Q[j], g) THEN Detach(U, Q[j]) ELSE U, Q, j - 1, g, am \/ FishyTie(U, Q[j]))
Cond(U, g) == IF "clean" \notin flags THEN <<U, FALSE>>
              ELSE LET Q == ByTag(U, art, g) IN CondR(U, Q, Len(Q), g, FALSE)
RECURSIVE CleanR(_, _, _)
CleanR(U, Q, j) == IF j < 1 THEN U
  ELSE CleanR(IF U[Q[j]].g \in {"object", "embed", "iframe"} /\ AllowedEmbed(U, Q[j]) THEN U ELSE Detach(U, Q[j]), Q, j - 1)
Clean(U, g) == LET Q == ByTag(U, art, g) IN CleanR(U, Q, Len(Q))
RECURSIVE CleanTags(_, _, _)
CleanTags(U, gs, j) == IF j > Len(gs) THEN U ELSE CleanTags(Clean(U, gs[j]), gs, j + 1)

Forms ==
  /\ pc = "forms" /\ pc' = "share"
  /\ \E a \in {Cond(T, "form")} : \E b \in {Cond(a[1], "fieldset")} :
     /\ T' = CleanTags(b[1], <<"object", "embed", "footer", "link", "aside">>, 1)
     /\ amb' = (amb \/ a[2] \/ b[2])
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, res>>

(* share widgets below the parts of the article *)
RECURSIVE ShareR(_, _, _)
ShareR(U, i, root) ==      \* i: node under inspection, 0 or outside of root: end
  IF i = 0 \/ ~InSeq(Anc(U, i), root) THEN U
  ELSE IF U[i].m.sh /\ RawLen(Text(U, i)) < 500
       THEN ShareR(Detach(U, i), NextNode(U, i, TRUE), root)
       ELSE ShareR(U, NextNode(U, i, FALSE), root)
RECURSIVE ShareAll(_, _, _)
ShareAll(U, Q, j) == IF j > Len(Q) THEN U
  ELSE ShareAll(IF ElKids(U, Q[j]) = <<>> THEN U ELSE ShareR(U, ElKids(U, Q[j])[1], Q[j]), Q, j + 1)
Share ==
  /\ pc = "share" /\ pc' = "junk"
  /\ T' = ShareAll(T, ElKids(T, art), 1)
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

Junk ==
  /\ pc = "junk" /\ pc' = "blocks"
  /\ \E U \in {CleanTags(T, <<"iframe", "input", "textarea", "select", "button">>, 1)} :
     \E Q \in {SelectSeq(ByTags(U, art, <<"h1", "h2">>), LAMBDA i : Weight(U[i]) < 0)} :
     T' = DetachAll(U, Q, 1)
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

Blocks ==
  /\ pc = "blocks" /\ pc' = "tidy"
  /\ \E a \in {Cond(T, "table")} : \E b \in {Cond(a[1], "ul")} : \E d \in {Cond(b[1], "div")} :
     T' = d[1] /\ amb' = (amb \/ a[2] \/ b[2] \/ d[2])
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, res>>

(* headings, empty paragraphs, breaks before paragraphs, one-cell tables *)
EmptyPar(U, i) == BlankTok(Text(U, i)) /\ ByTags(U, i, <<"img", "embed", "object", "iframe">>) = <<>>
RECURSIVE EmptyPars(_, _, _)
EmptyPars(U, Q, j) == IF j < 1 THEN U ELSE EmptyPars(IF EmptyPar(U, Q[j]) THEN Detach(U, Q[j]) ELSE U, Q, j - 1)
BeforePar(U, br) == LET q == U[br].p ks == U[q].k n == SkipWs(U, ks, IndexOf(ks, br) + 1) IN
  n <= Len(ks) /\ U[ks[n]].g = "p"
RECURSIVE BreaksBefore(_, _, _)
BreaksBefore(U, Q, j) == IF j > Len(Q) THEN U ELSE BreaksBefore(IF BeforePar(U, Q[j]) THEN Detach(U, Q[j]) ELSE U, Q, j + 1)
OneCell(U, i) ==
  LET tb == IF SingleTag(U, i, "tbody") THEN ElKids(U, i)[1] ELSE i IN
  IF SingleTag(U, tb, "tr") /\ SingleTag(U, ElKids(U, tb)[1], "td") THEN ElKids(U, ElKids(U, tb)[1])[1] ELSE 0
RECURSIVE OneCells(_, _, _)
OneCells(U, Q, j) ==
  IF j > Len(Q) THEN U
  ELSE LET cell == OneCell(U, Q[j]) IN
    IF cell = 0 THEN OneCells(U, Q, j + 1)
    ELSE LET inline == \A h \in 1..Len(U[cell].k) : Phrasing(U, U[cell].k[h])
             V == [U EXCEPT ![cell].g = IF inline THEN "p" ELSE "div"]
         IN OneCells(Replace(V, Q[j], cell), Q, j + 1)
Tidy ==
  /\ pc = "tidy" /\ pc' = "wrap"
  /\ \E h1 \in {ByTag(T, art, "h1")} : \E H \in {{h1[i] : i \in 1..Len(h1)}} :
     \E U \in {<<>> \o [i \in 1..Len(T) |-> IF i \in H THEN [T[i] EXCEPT !.g = "h2"] ELSE T[i]]} :
     \E Q \in {ByTag(U, art, "p")} :
     \E V \in {EmptyPars(U, Q, Len(Q))} :
     \E W \in {BreaksBefore(V, ByTag(V, art, "br"), 1)} :
     T' = OneCells(W, ByTag(W, art, "table"), 1)
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

(* the page container *)
PageAttrs(A) == SetAttr(SetAttr(A, "id", "readability-page-1"), "class", "page")
WrapPage ==
  /\ pc = "wrap" /\ pc' = "decide"
  /\ T' = IF made THEN [T EXCEPT ![top].a = PageAttrs(@)]
          ELSE LET id == Len(T) + 1
                   U == MoveAll(Append(T, [NewEl("div", 0, <<>>) EXCEPT !.a = PageAttrs(<<>>)]), art, id)
               IN AppendTo(U, art, id)
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

----------------------------------------------------------------------------
(* accept, retry or give up *)
NextFlags(F) == IF "strip" \in F THEN F \ {"strip"} ELSE IF "weight" \in F THEN F \ {"weight"} ELSE F \ {"clean"}
DirOf(U) ==
  LET Q == SelectSeq(<<par, top>> \o Anc(U, par), LAMBDA i : Attr(U[i].a, "dir") # "") IN
  IF Q = <<>> THEN "" ELSE Attr(U[Q[1]].a, "dir")
Decide ==
  /\ pc = "decide"
  /\ \E n \in {TLen(T, art)} : \E A \in {Append(atts, [T |-> T, art |-> art, len |-> n])} :
        IF n >= K.thr
        THEN /\ pc' = "links" /\ res' = [out |-> "ok", dir |-> DirOf(T), exh |-> FALSE, lvl |-> 3 - (IF "strip" \in flags THEN 1 ELSE 0)
                                            - (IF "weight" \in flags THEN 1 ELSE 0) - (IF "clean" \in flags THEN 1 ELSE 0)]
             /\ UNCHANGED <<T, art, atts, flags>>
        ELSE IF flags # {}
        THEN /\ pc' = "grab" /\ atts' = A /\ flags' = NextFlags(flags) /\ T' = T0 /\ art' = 0 /\ UNCHANGED res
        ELSE LET best == CHOOSE i \in 1..Len(A) : (\A j \in 1..Len(A) : A[j].len <= A[i].len)
                                                  /\ (\A j \in 1..(i - 1) : A[j].len < A[i].len)
             IN /\ atts' = A /\ UNCHANGED flags
                /\ IF A[best].len = 0
                   THEN pc' = "done" /\ res' = [out |-> "none"] /\ UNCHANGED <<T, art>>
                   ELSE /\ pc' = "links" /\ T' = A[best].T /\ art' = A[best].art
                        /\ res' = [out |-> "ok", dir |-> "", exh |-> TRUE, lvl |-> best - 1]
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, byl, top, par, made, amb>>

----------------------------------------------------------------------------
(* after-care of the article *)
Base == BaseOf(K.uri, K.base)
JsLink(U, i) ==
  LET ks == U[i].k IN
  IF Len(ks) = 1 /\ U[ks[1]].g = ""
  THEN Replace(Append(U, NewTx(0, Text(U, i))), i, Len(U) + 1)
  ELSE LET id == Len(U) + 1 V == MoveAll(Append(U, NewEl("span", 0, <<>>)), i, id) IN Replace(V, i, id)
RECURSIVE LinksR(_, _, _)
LinksR(U, Q, j) ==
  IF j > Len(Q) THEN U
  ELSE LET h == Attr(U[Q[j]].a, "href") IN
    LinksR(IF h = "" THEN U
           ELSE IF IsJsLink(h) THEN JsLink(U, Q[j])
           ELSE [U EXCEPT ![Q[j]].a = SetAttr(@, "href", AbsoluteHref(K.uri, Base, h))], Q, j + 1)
MediaTags == {"img", "picture", "figure", "video", "audio", "source"}
MediaAttrs(A) == <<>> \o [j \in 1..Len(A) |->
  IF A[j][2] = "" THEN A[j]
  ELSE IF A[j][1] \in {"src", "poster"} THEN <<A[j][1], Absolute(K.uri, Base, A[j][2])>>
  ELSE IF A[j][1] = "srcset" THEN <<A[j][1], AbsoluteSet(K.uri, Base, A[j][2])>>
  ELSE A[j]]
Links ==
  /\ pc = "links" /\ pc' = "simplify"
  /\ \E U \in {LinksR(T, ByTag(T, art, "a"), 1)} :
     \E D \in {Desc(U, art)} : \E M \in {{D[i] : i \in 1..Len(D)}} :
     T' = <<>> \o [i \in 1..Len(U) |-> IF i \in M /\ U[i].g \in MediaTags THEN [U[i] EXCEPT !.a = MediaAttrs(@)] ELSE U[i]]
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

RECURSIVE OverAttrs(_, _, _)
OverAttrs(A, B, j) == IF j > Len(B) THEN A ELSE OverAttrs(SetAttr(A, B[j][1], B[j][2]), B, j + 1)
RECURSIVE SimplifyR(_, _)
SimplifyR(U, i) ==
  IF i = 0 THEN U
  ELSE IF U[i].p # 0 /\ U[i].g \in {"div", "section"} /\ ~Prefix(Attr(U[i].a, "id"), "readability")
       THEN IF NoContent(U, i) THEN SimplifyR(Detach(U, i), NextNode(U, i, TRUE))
            ELSE IF SingleTag(U, i, "div") \/ SingleTag(U, i, "section")
            THEN LET ch == ElKids(U, i)[1]
                     V == [U EXCEPT ![ch].a = OverAttrs(@, U[i].a, 1)]
                 IN SimplifyR(Replace(V, i, ch), ch)
            ELSE SimplifyR(U, NextNode(U, i, FALSE))
       ELSE SimplifyR(U, NextNode(U, i, FALSE))
Simplify ==
  /\ pc = "simplify" /\ pc' = "classes"
  /\ T' = SimplifyR(T, art)
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

Preserved == {"page"} \cup {K.pres[i] : i \in 1..Len(K.pres)}
KeepClasses(A) ==
  LET v == Attr(A, "class")
      q == SelectSeq(SplitRuns(v, WsSet), LAMBDA w : w \in Preserved)
  IN IF v = "" \/ q = <<>> THEN DelAttr(A, "class") ELSE SetAttr(A, "class", Join(q, " "))
Classes ==
  /\ pc = "classes" /\ pc' = "done"
  /\ \E D \in {Desc(T, art)} : \E M \in {{D[i] : i \in 1..Len(D)}} :
     T' = IF K.keep THEN T
          ELSE <<>> \o [i \in 1..Len(T) |-> IF i \in M THEN [T[i] EXCEPT !.a = KeepClasses(@)] ELSE T[i]]
  /\ UNCHANGED <<c, T0, cur, els, cands, dup, flags, byl, atts, art, top, par, made, amb, res>>

Next == \/ Limit \/ Unwrap \/ Scripts \/ Brs \/ Grab \/ Visit \/ VisitEnd \/ Score \/ ScoreEnd \/ Scale \/ ScaleEnd \/ Select \/ JoinSiblings
        \/ Styles \/ Tables \/ Lazy \/ Forms \/ Share \/ Junk \/ Blocks \/ Tidy \/ WrapPage \/ Decide
        \/ Links \/ Simplify \/ Classes

----------------------------------------------------------------------------
(* the result as predicted *)
OutTree == Flat(T, art)
OutText == Text(T, art)
OutExcerpt == LET P == ByTag(T, art, "p") IN IF P = <<>> THEN <<>> ELSE TrimTok(Text(T, P[1]))
OutLang == Attr(K.doc[HTML].a, "lang")
=============================================================================
