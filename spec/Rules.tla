-------------------------------- MODULE Rules --------------------------------
(* The judgements the extraction makes about single nodes: names, visibility,
   lengths, densities, tables, images.  K is the case at hand.               *)
EXTENDS Tree, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE c
K == Cases[c]
Chunk(t) == K.ch[t]

----------------------------------------------------------------------------
(* names *)
UnlikelyWords == {"-ad-", "ai2html", "banner", "breadcrumbs", "combx", "comment", "community", "cover-wrap",
  "disqus", "extra", "footer", "gdpr", "header", "legends", "menu", "related", "remark", "replies", "rss",
  "shoutbox", "sidebar", "skyscraper", "social", "sponsor", "supplemental", "ad-break", "agegate",
  "pagination", "pager", "popup", "yom-remote"}
MaybeWords == {"and", "article", "body", "column", "content", "main", "shadow"}
PositiveWords == {"article", "body", "content", "entry", "main", "page", "pagination",
  "post", "text", "blog", "story"}
NegativeWords == {"-ad-", "hidden", "banner", "combx", "comment", "com-", "contact", "foot", "gdpr",
  "masthead", "media", "meta", "outbrain", "promo", "related", "scroll", "share", "shoutbox", "sidebar",
  "skyscraper", "sponsor", "shopping", "tags", "tool", "widget"}
BylineWords == {"byline", "author", "dateline", "writtenby"}

NegName(l) == HasAny(l, NegativeWords) \/ l = "hid" \/ Has(l, " hid ") \/ Suffix(l, " hid") \/ Prefix(l, "hid ")
PosName(l) == HasAny(l, PositiveWords)
NameWeight(v) == IF v = "" THEN 0 ELSE LET l == Lower(v) IN
  (IF NegName(l) THEN -25 ELSE 0) + (IF PosName(l) THEN 25 ELSE 0)
ShareName(l) ==
  \E i \in 1..Len(l) : \E w \in {"share", "sharedaddy"} :
     /\ IsAt(l, w, i)
     /\ (i = 1 \/ At(l, i - 1) \notin AlnumSet)
     /\ (i + Len(w) > Len(l) \/ At(l, i + Len(w)) \notin AlnumSet)

(* visibility *)
RECURSIVE StyleR(_, _, _)
StyleR(ds, prop, i) ==      \* value of the first declaration of prop
  IF i > Len(ds) THEN ""
  ELSE LET parts == Split(ds[i], ":") IN
       IF Trim(parts[1]) = prop THEN (IF Len(parts) > 1 THEN Trim(parts[2]) ELSE "")
       ELSE StyleR(ds, prop, i + 1)
Style(A, prop) == LET v == Attr(A, "style") IN IF v = "" THEN "" ELSE StyleR(Split(v, ";"), prop, 1)
Hidden(A) ==
  \/ Style(A, "display") = "none"
  \/ Style(A, "visibility") = "hidden"
  \/ HasAttr(A, "hidden")
  \/ (Attr(A, "aria-hidden") = "true" /\ ~Has(Attr(A, "class"), "fallback-image"))
UnlikelyRoles == {"menu", "menubar", "complementary", "navigation", "alert", "alertdialog", "dialog"}

Marks(A) == IF A = <<>> THEN NoMarks ELSE
  LET cls == Attr(A, "class") id == Attr(A, "id") ms == Lower(cls \o " " \o id) IN
  [unl |-> HasAny(ms, UnlikelyWords) /\ ~HasAny(ms, MaybeWords),
   w   |-> NameWeight(cls) + NameWeight(id),
   by  |-> Attr(A, "rel") = "author" \/ Has(Attr(A, "itemprop"), "author") \/ HasAny(ms, BylineWords),
   sh  |-> ShareName(ms),
   hid |-> Hidden(A),
   dlg |-> Attr(A, "aria-modal") = "true" /\ Attr(A, "role") = "dialog",
   rol |-> Attr(A, "role") \in UnlikelyRoles]

----------------------------------------------------------------------------
(* text *)
Blank(t) == t <= 0
RECURSIVE LenR(_, _, _, _)
LenR(x, i, f, acc) ==        \* f: 1 characters, 2 bytes
  IF i > Len(x) THEN acc
  ELSE LenR(x, i + 1, f, acc +
     (IF x[i] > 0 THEN (IF f = 1 THEN Chunk(x[i]).n ELSE Chunk(x[i]).b)
      ELSE IF x[i] = -2 THEN f
      ELSE IF i > 1 /\ x[i - 1] \in {0, -1} THEN 0 ELSE 1))
NormLen(x) == LenR(TrimTok(x), 1, 1, 0)          \* characters of the normalised inner text
NormBytes(x) == LenR(TrimTok(x), 1, 2, 0)
RECURSIVE RawR(_, _, _)
RawR(x, i, acc) == IF i > Len(x) THEN acc ELSE RawR(x, i + 1, acc + (IF x[i] > 0 THEN Chunk(x[i]).n ELSE 1))
RawLen(x) == RawR(x, 1, 0)                       \* characters as they stand
TLen(T, i) == NormLen(Text(T, i))
TBytes(T, i) == NormBytes(Text(T, i))
RECURSIVE CommaR(_, _, _, _)
CommaR(x, i, f, acc) == IF i > Len(x) THEN acc
  ELSE CommaR(x, i + 1, f, acc + (IF x[i] > 0 THEN (IF f = 1 THEN Chunk(x[i]).c ELSE Chunk(x[i]).C) ELSE 0))
AsciiCommas(x) == CommaR(x, 1, 1, 0)
AllCommas(x) == CommaR(x, 1, 2, 0)
\* a full stop before a space or at the end of the normalised text
RECURSIVE NormTokR(_, _, _)
NormTokR(x, i, acc) ==
  IF i > Len(x) THEN acc
  ELSE IF x[i] \in {0, -1} /\ i < Len(x) /\ x[i + 1] \in {0, -1}
       THEN LET j == CHOOSE j \in i..Len(x) : x[j] \in {0, -1} /\ (\A h \in i..j : x[h] \in {0, -1})
                                              /\ (j = Len(x) \/ x[j + 1] \notin {0, -1})
            IN NormTokR(x, j + 1, Append(acc, 0))
       ELSE NormTokR(x, i + 1, Append(acc, x[i]))
EndsSentence(x0) == LET x == NormTokR(TrimTok(x0), 1, <<>>) IN
  \E i \in 1..Len(x) : x[i] > 0 /\ (Chunk(x[i]).ds \/ (Chunk(x[i]).de /\ (i = Len(x) \/ x[i + 1] = 0)))

\* words of a text, as used to compare headings with the title
RECURSIVE WordsR(_, _, _)
WordsR(x, i, acc) ==
  IF i > Len(x) THEN acc
  ELSE IF x[i] <= 0 THEN WordsR(x, i + 1, acc)
  ELSE LET ws == Chunk(x[i]).ws IN
       IF i > 1 /\ x[i - 1] > 0 /\ Chunk(x[i - 1]).we /\ acc # <<>> /\ ws # <<>>
       THEN WordsR(x, i + 1, SubSeq(acc, 1, Len(acc) - 1) \o <<acc[Len(acc)] \o ws[1]>> \o SubSeq(ws, 2, Len(ws)))
       ELSE WordsR(x, i + 1, acc \o ws)
Words(x) == WordsR(x, 1, <<>>)
JoinLen(ws) == IF ws = <<>> THEN 0 ELSE Sum([i \in 1..Len(ws) |-> Len(ws[i])]) + Len(ws) - 1
\* similarity of B to A above three quarters
Similar(A, B) == /\ A # <<>> /\ B # <<>>
                 /\ 4 * JoinLen(SelectSeq(B, LAMBDA w : ~InSeq(A, w))) < JoinLen(B)

----------------------------------------------------------------------------
(* structure *)
PhrasingTags == {"abbr", "audio", "b", "bdo", "br", "button", "cite", "code", "data", "datalist", "dfn", "em",
  "embed", "i", "img", "input", "kbd", "label", "mark", "math", "meter", "noscript", "object", "output",
  "progress", "q", "ruby", "samp", "script", "select", "small", "span", "strong", "sub", "sup", "textarea",
  "time", "var", "wbr"}
RECURSIVE Phrasing(_, _)
Phrasing(T, i) == \/ T[i].g = ""
                  \/ T[i].g \in PhrasingTags
                  \/ T[i].g \in {"a", "del", "ins"} /\ \A j \in 1..Len(T[i].k) : Phrasing(T, T[i].k[j])
BlockTags == {"blockquote", "dl", "div", "img", "ol", "p", "pre", "table", "ul"}
HasBlock(T, i) == LET D == Desc(T, i) IN \E j \in 1..Len(D) : T[D[j]].g \in BlockTags
IsBlank(T, i) == (T[i].g = "" /\ BlankTok(T[i].x)) \/ T[i].g = "br"
HasContentTok(x) == ~WsTok(x)
SingleTag(T, i, g) ==
  LET E == ElKids(T, i) IN
  /\ Len(E) = 1 /\ T[E[1]].g = g
  /\ \A j \in 1..Len(T[i].k) : T[T[i].k[j]].g = "" => ~HasContentTok(T[T[i].k[j]].x)
NoContent(T, i) ==
  /\ BlankTok(Text(T, i))
  /\ LET n == Len(ElKids(T, i)) IN n = 0 \/ n = Count(T, i, "br") + Count(T, i, "hr")
\* one of the nearest four ancestors (max 3 as the code counts), or any if max = 0, has the tag and satisfies P
HasAncestor(T, i, g, max, P(_)) == LET A == Anc(T, i) IN
  \E j \in 1..Len(A) : (max = 0 \/ j <= max + 1) /\ T[A[j]].g = g /\ P(A[j])
True1(i) == TRUE

----------------------------------------------------------------------------
(* links *)
HashLink(h) == Len(h) >= 2 /\ At(h, 1) = "#"
\* link density as <<tenths of linked characters, ten times all characters, coefficients used>>
LinkDensity(T, i) ==
  LET n == TLen(T, i) L == ByTag(T, i, "a") IN
  IF n = 0 THEN <<0, 10, FALSE>>
  ELSE <<Sum([j \in 1..Len(L) |-> TLen(T, L[j]) * (IF HashLink(Attr(T[L[j]].a, "href")) THEN 3 ELSE 10)]),
         10 * n, \E j \in 1..Len(L) : HashLink(Attr(T[L[j]].a, "href"))>>
LDBelow(ld, num, den) == RCmp(ld[1], ld[2], num, den) < 0
LDAbove(ld, num, den) == RCmp(ld[1], ld[2], num, den) > 0
LDTie(ld, num, den) == ld[3] /\ RCmp(ld[1], ld[2], num, den) = 0

----------------------------------------------------------------------------
(* scores, in 36ths *)
TagsToScore == {"section", "h2", "h3", "h4", "h5", "h6", "p", "td", "pre"}
BaseScore(g) == IF g = "div" THEN 5
  ELSE IF g \in {"pre", "td", "blockquote"} THEN 3
  ELSE IF g \in {"address", "ol", "ul", "dl", "dd", "dt", "li", "form"} THEN -3
  ELSE IF g \in {"h1", "h2", "h3", "h4", "h5", "h6", "th"} THEN -5 ELSE 0
SCmp(a, b) == RCmp(a[1], a[2], b[1], b[2])
ExactS(a) == a[3]

----------------------------------------------------------------------------
(* images and embeds *)
Exts == {".jpg", ".jpeg", ".png", ".webp"}
HasExt(v) == HasAny(v, Exts)
ExtThenNumber(v) == \E e \in Exts : \E i \in 1..Len(v) : IsAt(v, e, i) /\
  LET j == SkipSet(v, WsSet, i + Len(e)) IN j > i + Len(e) /\ j <= Len(v) /\ At(v, j) \in DigitSet
ExtAlone(v) == LET t == TrimSet(v, WsSet) IN
  /\ FindSetFrom(t, WsSet, 1) = 0
  /\ \E e \in Exts : \E i \in 2..Len(t) : IsAt(t, e, i)
\* data URI in base 64: its media type, or "" if it is none
B64Type(v) ==
  IF Lower(Upto(v, 5)) # "data:" THEN ""
  ELSE LET i == SkipSet(v, WsSet, 6)
           j == LET e == FindSetFrom(v, WsSet \cup {";", ","}, i) IN IF e = 0 THEN Len(v) + 1 ELSE e
           s == SkipSet(v, WsSet, j)
           b == SkipSet(v, WsSet, s + 1)
           k == SkipSet(v, WsSet, b + 6)
       IN IF j > i /\ s <= Len(v) /\ At(v, s) = ";" /\ b + 5 <= Len(v) /\ Lower(SubSeq(v, b, b + 5)) = "base64"
             /\ k <= Len(v) /\ At(v, k) = ","
          THEN SubSeq(v, i, j - 1) ELSE ""
B64Len(v) == Len(v) - (Find(Lower(v), "base64") - 1 + 7)
DefaultVideos == LET H == {"dailymotion.com", "youtube.com", "youtube-nocookie.com", "player.vimeo.com", "v.qq.com",
                           "archive.org", "upload.wikimedia.org", "player.twitch.tv"}
                 IN {"//" \o h : h \in H} \cup {"//www." \o h : h \in H}
Videos == IF K.vid = <<"default">> THEN DefaultVideos ELSE {K.vid[i] : i \in 1..Len(K.vid)}
IsVideo(v) == HasAny(Lower(v), Videos)
AllowedEmbed(T, i) ==
  \/ \E j \in 1..Len(T[i].a) : IsVideo(T[i].a[j][2])
  \/ T[i].g = "object" /\ LET D == Desc(T, i) IN \E j \in 1..Len(D) :
        LET e == D[j] IN \E h \in 1..Len(T[e].a) : IsVideo(T[e].a[h][2])

(* tables *)
Span(v) == IF IsNum(v) THEN Num(v) ELSE 0
RowsOf(T, i) == LET R == ByTag(T, i, "tr") IN
  Sum([j \in 1..Len(R) |-> LET s == Span(Attr(T[R[j]].a, "rowspan")) IN IF s # 0 THEN s ELSE 1])
ColsIn(T, r) == LET D == ByTag(T, r, "td") IN
  Sum([j \in 1..Len(D) |-> LET s == Span(Attr(T[D[j]].a, "colspan")) IN IF s # 0 THEN s ELSE 1])
RECURSIVE MaxOf(_, _, _)
MaxOf(q, i, m) == IF i > Len(q) THEN m ELSE MaxOf(q, i + 1, Max2(m, q[i]))
ColsOf(T, i) == LET R == ByTag(T, i, "tr") IN MaxOf(<<>> \o [j \in 1..Len(R) |-> ColsIn(T, R[j])], 1, 0)
IsDataTable(T, i) ==
  LET A == T[i].a cap == ByTag(T, i, "caption") IN
  IF Attr(A, "role") = "presentation" THEN FALSE
  ELSE IF Attr(A, "datatable") = "0" THEN FALSE
  ELSE IF Attr(A, "summary") # "" THEN TRUE
  ELSE IF cap # <<>> /\ T[cap[1]].k # <<>> THEN TRUE
  ELSE IF \E g \in {"col", "colgroup", "tfoot", "thead", "th"} : ByTag(T, i, g) # <<>> THEN TRUE
  ELSE IF ByTag(T, i, "table") # <<>> THEN FALSE
  ELSE LET r == RowsOf(T, i) k == ColsOf(T, i) IN
       r >= 10 \/ k > 4 \/ r * k > 10
=============================================================================
