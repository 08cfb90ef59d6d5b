-------------------------------- MODULE Meta --------------------------------
(* Where title, byline, excerpt, site name and publication time come from.
   The machine goes through the JSON-LD scripts, then through the meta tags,
   then reduces the page title, then picks the first source of each value.
   JSON values are tagged: <<"s", string>>, <<"o", <<<<key, value>>, ...>>>>,
   <<"a", <<value, ...>>>>, <<"x">> (any other), <<"bad">> (not JSON).        *)
EXTENDS Str, FiniteSets, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc, i, ld, vals, cur, hier
vars == <<c, pc, i, ld, vals, cur, hier>>
K == Cases[c]
None == [found |-> FALSE, title |-> "", byline |-> "", excerpt |-> "", site |-> "", time |-> ""]

----------------------------------------------------------------------------
(* named references only; the pages have no others *)
Named == ("lt" :> "<") @@ ("gt" :> ">") @@ ("amp" :> "&") @@ ("quot" :> "\"") @@ ("apos" :> "'") @@ ("#38" :> "&") @@ ("#x3e" :> ">")
RECURSIVE DecodeRec(_, _, _)
DecodeRec(s, j, acc) ==
  LET a == FindFrom(s, "&", j) IN
  IF a = 0 THEN acc \o From(s, j)
  ELSE LET pre == IF a = j THEN acc ELSE acc \o SubSeq(s, j, a - 1)
           e == FindFrom(s, ";", a)
           b == IF e <= a + 1 THEN "" ELSE SubSeq(s, a + 1, e - 1) IN
       IF b \in DOMAIN Named THEN DecodeRec(s, e + 1, pre \o Named[b]) ELSE DecodeRec(s, a + 1, pre \o "&")
Decode(s) == DecodeRec(s, 1, "")

----------------------------------------------------------------------------
(* the page title *)
Seps == CharSet("|-\\/>»")
HierSeps == CharSet("\\/>»")
WordCount(s) == Len(SplitRuns(s, WsSet))
HasSep(s, S) == \E j \in 1..(Len(s) - 2) : SubSeq(s, j, j) = " " /\ SubSeq(s, j + 1, j + 1) \in S /\ SubSeq(s, j + 2, j + 2) = " "
LastSep(s) == LET Q == {j \in 1..(Len(s) - 1) : SubSeq(s, j, j) \in Seps /\ SubSeq(s, j + 1, j + 1) = " "} IN CHOOSE j \in Q : \A h \in Q : h <= j
Orig == Trim(K.title)
Heads == {K.h1[j] : j \in 1..Len(K.h1)} \cup {K.h2[j] : j \in 1..Len(K.h2)}
\* cutting at a separator: the last part goes, or, if fewer than three words are left, the first part
CutSep(s) == LET a == Upto(s, LastSep(s) - 1) IN IF WordCount(a) < 3 THEN From(s, FindSetFrom(s, Seps, 1) + 1) ELSE a
\* cutting at a colon
CutColon(s) ==
  IF \E h \in Heads : Trim(h) = Trim(s) THEN s
  ELSE LET a == From(s, FindLast(s, ":") + 1) IN
       IF WordCount(a) < 3 THEN From(s, Find(s, ":") + 1)
       ELSE IF WordCount(Upto(s, Find(s, ":") - 1)) > 5 THEN s
       ELSE a
Reduced(s) == IF HasSep(s, Seps) THEN CutSep(s)
              ELSE IF Has(s, ": ") THEN CutColon(s)
              ELSE IF (Len(s) > 150 \/ Len(s) < 15) /\ Len(K.h1) = 1 THEN Norm(Trim(K.h1[1]))
              ELSE s
\* a reduction to four words or fewer stands only if a hierarchy lost a single word
Settled(s, r) == LET n == WordCount(r) IN
  IF n <= 4 /\ (~HasSep(s, HierSeps) \/ n # WordCount(DropSet(s, Seps)) - 1) THEN s ELSE r
PageTitle == Settled(Orig, Norm(Trim(Reduced(Orig))))

----------------------------------------------------------------------------
(* similarity of texts: the share of the second one's words that the first has, by length *)
Tokens(s) == LET l == Lower(s) IN NonEmpty(SplitRuns(l, {SubSeq(l, j, j) : j \in 1..Len(l)} \ WordSet))
Close(a, b) == LET A == Tokens(a) B == Tokens(b) IN
  /\ A # <<>> /\ B # <<>>
  /\ LET U == SelectSeq(B, LAMBDA w : ~\E j \in 1..Len(A) : A[j] = w) IN 4 * Len(Join(U, " ")) < Len(Join(B, " "))

----------------------------------------------------------------------------
(* JSON-LD *)
Get(o, k) == LET Q == {j \in 1..Len(o[2]) : o[2][j][1] = k} IN IF Q = {} THEN <<"-">> ELSE o[2][CHOOSE j \in Q : TRUE][2]
IsStr(v) == v[1] = "s"
StrOf(v) == IF IsStr(v) THEN Trim(v[2]) ELSE ""
ArticleTypes == {"Article", "AdvertiserContentArticle", "NewsArticle", "AnalysisNewsArticle", "AskPublicNewsArticle", "BackgroundNewsArticle",
  "OpinionNewsArticle", "ReportageNewsArticle", "ReviewNewsArticle", "Report", "SatiricalArticle", "ScholarlyArticle", "MedicalScholarlyArticle",
  "SocialMediaPosting", "BlogPosting", "LiveBlogPosting", "DiscussionForumPosting", "TechArticle", "APIReference"}
IsArticle(o) == o[1] = "o" /\ IsStr(Get(o, "@type")) /\ Get(o, "@type")[2] \in ArticleTypes
Schema == {"http://schema.org", "https://schema.org", "http://schema.org/", "https://schema.org/"}
\* the object that describes the article: the object itself, or the first article in its graph
Article(o) ==
  LET g == Get(o, "@graph")
      Q == IF g[1] = "a" THEN {j \in 1..Len(g[2]) : IsArticle(g[2][j])} ELSE {}
  IN IF (Get(o, "@type")[1] = "-" \/ g[1] # "-") /\ Q # {} THEN g[2][CHOOSE j \in Q : \A h \in Q : j <= h] ELSE o
NameOf(o) == IF o[1] = "o" THEN Get(o, "name") ELSE <<"-">>
Authors(v) ==
  IF v[1] = "o" THEN StrOf(NameOf(v))
  ELSE IF v[1] = "a" /\ v[2] # <<>> /\ IsStr(NameOf(v[2][1]))
  THEN Join([j \in 1..Len(SelectSeq(v[2], LAMBDA w : IsStr(NameOf(w)))) |-> StrOf(NameOf(SelectSeq(v[2], LAMBDA w : IsStr(NameOf(w)))[j]))], ", ")
  ELSE ""
TitleOf(o) ==
  LET n == Get(o, "name") h == Get(o, "headline") IN
  IF IsStr(n) /\ IsStr(h) /\ n[2] # h[2] THEN (IF Close(h[2], PageTitle) /\ ~Close(n[2], PageTitle) THEN Trim(h[2]) ELSE Trim(n[2]))
  ELSE IF IsStr(n) THEN StrOf(n) ELSE StrOf(h)
FromLd(o) == [found |-> TRUE, title |-> TitleOf(o), byline |-> Authors(Get(o, "author")), excerpt |-> StrOf(Get(o, "description")),
              site |-> (IF Get(o, "publisher")[1] = "o" THEN StrOf(NameOf(Get(o, "publisher"))) ELSE ""), time |-> StrOf(Get(o, "datePublished"))]
Accept(v) == /\ v[1] = "o"
             /\ IsStr(Get(v, "@context")) /\ Get(v, "@context")[2] \in Schema
             /\ IsArticle(Article(v))

----------------------------------------------------------------------------
(* meta tags *)
PropPrefixes == {"article", "dc", "dcterm", "og", "twitter"}
PropNames == {"author", "creator", "description", "published_time", "title", "site_name"}
NamePrefixes == {"dc", "dcterm", "og", "twitter", "weibo:article", "weibo:webpage"}
NameNames == {"author", "creator", "description", "title", "site_name"}
\* the first prefix:name in a property, or ""
PropAt(s, j) ==
  LET Q == {p \in PropPrefixes : IsAt(s, p, j) /\ IsAt(s, ":", SkipSet(s, WsSet, j + Len(p)))} IN
  IF Q = {} THEN ""
  ELSE LET p == CHOOSE x \in Q : TRUE
           k == SkipSet(s, WsSet, SkipSet(s, WsSet, j + Len(p)) + 1)
           R == {x \in PropNames : IsAt(s, x, k)} IN
       IF R = {} THEN "" ELSE p \o ":" \o (CHOOSE x \in R : TRUE)
PropKey(p) == LET s == Lower(p) Q == {j \in 1..Len(s) : PropAt(s, j) # ""} IN
  IF Q = {} THEN "" ELSE PropAt(s, CHOOSE j \in Q : \A h \in Q : j <= h)
NameKey(n) ==
  LET s == TrimSet(Lower(n), WsSet)
      Q == {j \in 1..Len(s) : SubSeq(s, j, j) \in {".", ":"}}
  IN IF s \in NameNames THEN s
     ELSE IF Q = {} THEN ""
     ELSE LET j == CHOOSE h \in Q : \A g \in Q : g <= h
              p == TrimSet(Upto(s, j - 1), WsSet) x == TrimSet(From(s, j + 1), WsSet)
          IN IF p \in NamePrefixes /\ x \in NameNames /\ ~\E h \in 1..(j - 1) : SubSeq(s, h, h) \in WsSet /\ h < Len(p) THEN p \o ":" \o x ELSE ""
Keys == {p \o ":" \o n : p \in PropPrefixes \cup NamePrefixes, n \in PropNames} \cup NameNames
KeyOf(m) == IF m.content = "" THEN ""
            ELSE IF PropKey(m.property) # "" THEN PropKey(m.property)
            ELSE NameKey(m.name)

----------------------------------------------------------------------------
Init == /\ c \in 1..Len(Cases) /\ pc = "ld" /\ i = 1 /\ ld = None /\ vals = [k \in Keys |-> ""] /\ cur = "" /\ hier = FALSE
Ld == /\ pc = "ld" /\ i <= Len(K.ld) /\ i' = i + 1
      /\ \E s \in {K.ld[i]} :
         ld' = (IF ~ld.found /\ ~K.nold /\ s.type = "application/ld+json" /\ s.json[1] # "bad" /\ Accept(s.json) THEN FromLd(Article(s.json)) ELSE ld)
      /\ UNCHANGED <<c, pc, vals, cur, hier>>
LdDone == /\ pc = "ld" /\ i > Len(K.ld) /\ pc' = "meta" /\ i' = 1 /\ UNCHANGED <<c, ld, vals, cur, hier>>
MetaTag == /\ pc = "meta" /\ i <= Len(K.metas) /\ i' = i + 1
           /\ \E k \in {KeyOf(K.metas[i])} : vals' = (IF k = "" THEN vals ELSE [vals EXCEPT ![k] = Trim(K.metas[i].content)])
           /\ UNCHANGED <<c, pc, ld, cur, hier>>
MetaDone == /\ pc = "meta" /\ i > Len(K.metas) /\ pc' = "title" /\ UNCHANGED <<c, i, ld, vals, cur, hier>>
Cut == /\ pc = "title" /\ cur' = Norm(Trim(Reduced(Orig))) /\ hier' = HasSep(Orig, HierSeps) /\ pc' = "settle" /\ UNCHANGED <<c, i, ld, vals>>
Settle == /\ pc = "settle" /\ cur' = Settled(Orig, cur) /\ pc' = "done" /\ UNCHANGED <<c, i, ld, vals, hier>>
Next == Ld \/ LdDone \/ MetaTag \/ MetaDone \/ Cut \/ Settle
Spec == Init /\ [][Next]_vars

RECURSIVE AnyOf(_)
AnyOf(q) == IF q = <<>> THEN "" ELSE IF q[1] # "" THEN q[1] ELSE AnyOf(Tail(q))
Titles == <<ld.title, vals["dc:title"], vals["dcterm:title"], vals["og:title"], vals["weibo:article:title"], vals["weibo:webpage:title"],
            vals["title"], vals["twitter:title"], cur>>
Bylines == <<ld.byline, vals["dc:creator"], vals["dcterm:creator"], vals["author"]>>
Excerpts == <<ld.excerpt, vals["dc:description"], vals["dcterm:description"], vals["og:description"], vals["weibo:article:description"],
              vals["weibo:webpage:description"], vals["description"], vals["twitter:description"]>>
Want == [title |-> Decode(AnyOf(Titles)),
         byline |-> IF AnyOf(Bylines) # "" THEN Decode(AnyOf(Bylines)) ELSE K.pby,
         excerpt |-> IF AnyOf(Excerpts) # "" THEN Decode(AnyOf(Excerpts)) ELSE K.first,
         site |-> Decode(AnyOf(<<ld.site, vals["og:site_name"]>>)),
         time |-> Decode(AnyOf(<<ld.time, vals["article:published_time"]>>))]

----------------------------------------------------------------------------
(* the specification's own properties *)
Done == pc = "done"
\* disabled or foreign JSON-LD has no influence
Inv_Ld == Done /\ (K.nold \/ \A j \in 1..Len(K.ld) : K.ld[j].json[1] = "bad" \/ ~Accept(K.ld[j].json)) => ld = None
\* the title is the page's, a part of it, or the only heading
Inv_Title == Done => cur = Orig \/ Has(Norm(Orig), cur) \/ (Len(K.h1) = 1 /\ cur = Norm(Trim(K.h1[1])))
\* a short title is never a mere cut, except for a hierarchy that lost one word
Inv_Short == Done /\ WordCount(cur) <= 4 /\ cur # Orig => hier /\ WordCount(cur) = WordCount(DropSet(Orig, Seps)) - 1
Fields == {"title", "byline", "excerpt", "site", "time"}
Diff == {f \in {K.cmp[j] : j \in 1..Len(K.cmp)} : K.obs[f] # Want[f]}
Told == Done => \E d \in {IF K.obs.out # "ok" THEN {"outcome"} ELSE Diff} :
  PrintT((IF d = {} THEN "GOOD " ELSE "BAD ") \o ToString(c) \o " " \o ToJson(d) \o " " \o ToJson(Want))
=============================================================================
