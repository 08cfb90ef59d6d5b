-------------------------------- MODULE Uri --------------------------------
(* Reference resolution (RFC 3986, section 5.2) on strings. *)
EXTENDS Str

SchemeStart == UpperSet \cup LowerSet
SchemeChar == SchemeStart \cup DigitSet \cup {"+", "-", "."}

\* position of the colon ending the scheme, or 0
SchemeEnd(u) == LET i == SkipSet(u, SchemeChar, 1) IN
  IF u # "" /\ At(u, 1) \in SchemeStart /\ i <= Len(u) /\ At(u, i) = ":" THEN i ELSE 0

HexSet == DigitSet \cup CharSet("abcdefABCDEF")
GoodEscapes(s) == \A i \in 1..Len(s) : At(s, i) = "%" =>
  i + 2 <= Len(s) /\ At(s, i + 1) \in HexSet /\ At(s, i + 2) \in HexSet

NoUri == [ok |-> FALSE]
\* components of a reference; ok = FALSE if it is none
ParseUri(u) ==
  LET h == Find(u, "#")
      noF == IF h = 0 THEN u ELSE Upto(u, h - 1)
      hasF == h # 0
      frag == IF h = 0 THEN "" ELSE From(u, h + 1)
      se == SchemeEnd(noF)
      scheme == IF se = 0 THEN "" ELSE Lower(Upto(noF, se - 1))
      r0 == IF se = 0 THEN noF ELSE From(noF, se + 1)
      q == Find(r0, "?")
      hasQ == q # 0
      query == IF hasQ THEN From(r0, q + 1) ELSE ""
      rest == IF hasQ THEN Upto(r0, q - 1) ELSE r0
      opaque == scheme # "" /\ ~Prefix(rest, "/")
      hasA == Prefix(rest, "//") /\ (scheme # "" \/ ~Prefix(rest, "///"))
      aend == LET e == FindFrom(rest, "/", 3) IN IF e = 0 THEN Len(rest) + 1 ELSE e
      auth == IF hasA THEN (IF aend > 3 THEN SubSeq(rest, 3, aend - 1) ELSE "") ELSE ""
      path == IF hasA THEN From(rest, aend) ELSE rest
      at == FindLast(auth, "@")
      seg == LET e == Find(rest, "/") IN IF e = 0 THEN rest ELSE Upto(rest, e - 1)
      bad == \/ (u # "" /\ At(u, 1) = ":")
             \/ (se = 0 /\ ~Prefix(rest, "/") /\ Has(seg, ":"))
             \/ (~opaque /\ ~GoodEscapes(path))
             \/ ~GoodEscapes(frag)
  IN IF bad THEN NoUri
     ELSE [ok |-> TRUE, scheme |-> scheme, opaque |-> opaque, hasA |-> hasA,
           user |-> IF at = 0 THEN "" ELSE Upto(auth, at), host |-> From(auth, at + 1),
           path |-> path, hasQ |-> hasQ, query |-> query, hasF |-> hasF, frag |-> frag]

\* 5.2.4, on the segments of an absolute path
RECURSIVE DotsR(_, _, _)
DotsR(segs, i, out) ==
  IF i > Len(segs) THEN out
  ELSE LET last == i = Len(segs) IN
    IF segs[i] = "." THEN DotsR(segs, i + 1, IF last THEN Append(out, "") ELSE out)
    ELSE IF segs[i] = ".."
         THEN LET o == IF out = <<>> THEN out ELSE SubSeq(out, 1, Len(out) - 1)
              IN DotsR(segs, i + 1, IF last THEN Append(o, "") ELSE o)
    ELSE DotsR(segs, i + 1, Append(out, segs[i]))
RemoveDots(p) == IF p = "" THEN ""
  ELSE LET segs == Split(IF Prefix(p, "/") THEN From(p, 2) ELSE p, "/") IN "/" \o Join(DotsR(segs, 1, <<>>), "/")
MergePath(b, r) == IF b.path = "" THEN "/" \o r ELSE Upto(b.path, FindLast(b.path, "/")) \o r

\* 5.2.2
Target(b, r) ==
  IF r.scheme # "" THEN (IF r.opaque THEN r ELSE [r EXCEPT !.path = RemoveDots(@)])
  ELSE IF r.hasA THEN [r EXCEPT !.path = RemoveDots(@), !.scheme = b.scheme]
  ELSE IF r.path = ""
       THEN [b EXCEPT !.hasQ = IF r.hasQ THEN TRUE ELSE b.hasQ, !.query = IF r.hasQ THEN r.query ELSE b.query,
                      !.hasF = r.hasF, !.frag = r.frag,
                      !.path = IF b.opaque THEN @ ELSE RemoveDots(@)]
  ELSE [b EXCEPT !.path = RemoveDots(IF Prefix(r.path, "/") THEN r.path ELSE MergePath(b, r.path)),
                 !.hasQ = r.hasQ, !.query = r.query, !.hasF = r.hasF, !.frag = r.frag]

\* blanks within a path or fragment are escaped
Esc(s) == IF Has(s, " ") THEN ReplaceAll(s, " ", "%20") ELSE s
\* 5.3, with the host in lower case and no empty path behind a host
Recompose(t) ==
  (IF t.scheme # "" THEN t.scheme \o ":" ELSE "")
  \o (IF t.hasA THEN "//" \o t.user \o Lower(t.host) ELSE "")
  \o (IF t.hasA /\ t.host # "" /\ t.path = "" THEN "/" ELSE IF t.opaque THEN t.path ELSE Esc(t.path))
  \o (IF t.hasQ THEN "?" \o t.query ELSE "")
  \o (IF t.hasF THEN "#" \o Esc(t.frag) ELSE "")
\* the same, as a base: as it is written
RecomposeRaw(t) ==
  (IF t.scheme # "" THEN t.scheme \o ":" ELSE "")
  \o (IF t.hasA THEN "//" \o t.user \o t.host ELSE "")
  \o t.path
  \o (IF t.hasQ THEN "?" \o t.query ELSE "")
  \o (IF t.hasF /\ t.frag # "" THEN "#" \o t.frag ELSE "")

BaseOf(page, baseHref) ==
  IF baseHref = "" THEN page
  ELSE LET b == ParseUri(page) r == ParseUri(baseHref) IN
       IF ~b.ok \/ ~r.ok THEN page ELSE RecomposeRaw(Target(b, r))
\* what a reference in the page becomes
Absolute(page, base, ref0) ==
  LET ref == Trim(ref0) IN
  IF base = page /\ Prefix(ref, "#") THEN ref
  ELSE LET b == ParseUri(base) r == ParseUri(ref) IN
       IF ~b.ok \/ ~r.ok THEN ref ELSE Recompose(Target(b, r))

\* srcset: candidates "url descriptor" separated by commas
RECURSIVE SrcsetR(_, _, _)
SrcsetR(s, i, acc) ==     \* sequence of <<url, descriptor, separator>>: (\S+)(\s+[\d.]+[xw])?(\s*(?:,|$))
  LET a == SkipSet(s, WsSet, i) IN
  IF a > Len(s) THEN acc
  ELSE LET e0 == LET e == FindSetFrom(s, WsSet, a) IN IF e = 0 THEN Len(s) + 1 ELSE e
           d == SkipSet(s, WsSet, e0)
           n == SkipSet(s, DigitSet \cup {"."}, d)
           hasD == d > e0 /\ n > d /\ n <= Len(s) /\ At(s, n) \in {"x", "w"}
           afterD == IF hasD THEN n + 1 ELSE e0
           w == SkipSet(s, WsSet, afterD)
       IN IF hasD /\ (w > Len(s) \/ At(s, w) = ",")
          THEN SrcsetR(s, w + 1, Append(acc, <<SubSeq(s, a, e0 - 1), SubSeq(s, e0, n),
                    IF w > Len(s) THEN From(s, n + 1) ELSE SubSeq(s, n + 1, w)>>))
          ELSE IF d > Len(s) \/ At(s, d) = ","
          THEN \* no descriptor; greedy \S+ backs off to leave a final comma only if nothing else follows
               SrcsetR(s, d + 1, Append(acc, <<SubSeq(s, a, e0 - 1), "", IF d > Len(s) THEN From(s, e0) ELSE SubSeq(s, e0, d)>>))
          ELSE IF At(s, e0 - 1) = "," /\ e0 - 1 > a
          THEN SrcsetR(s, e0, Append(acc, <<SubSeq(s, a, e0 - 2), "", ",">>))
          ELSE SrcsetR(s, e0, acc)
Srcset(s) == SrcsetR(s, 1, <<>>)
AbsoluteSet(page, base, v) ==
  LET q == Srcset(v) IN
  Join([i \in 1..Len(q) |-> Absolute(page, base, q[i][1]) \o q[i][2] \o q[i][3]], IF Has(v, ", ") THEN " " ELSE "")
\* links may hold several targets joined by ",%20"
AbsoluteHref(page, base, v) ==
  IF Has(v, ",%20") THEN LET q == Split(v, ",%20") IN Join([i \in 1..Len(q) |-> Absolute(page, base, q[i])], ",%20")
  ELSE Absolute(page, base, v)
IsJsLink(v) == Prefix(Lower(Trim(v)), "javascript:")
=============================================================================
