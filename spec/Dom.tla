-------------------------------- MODULE Dom --------------------------------
(* Editing a tree of nodes.  The abstract state is an ordered forest (kids);
   beside it the linked structure the library keeps is modelled as it is
   edited, link by link, and Refines says that after every edit each link is
   what the forest says.  Every state and every transition is written out, to
   be replayed on the real nodes.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NE,      \* nodes 1..NE are elements
          NT,      \* NE+1..NE+NT are texts
          NF,      \* that many more may come into being (by setting text or markup)
          Sets     \* how often text or markup may be set

N == NE + NT + NF
Nodes == 1..N
Nil == 0
VARIABLES kids,   \* the forest: children of each node, in order
          kind,   \* "e", "t" or "" (does not exist yet)
          sets    \* how often text or markup was set
VARIABLE L        \* the links: up, nx, pv, ne, pe (siblings, element siblings), cn, ch (child lists)
vars == <<kids, kind, sets, L>>

Range(q) == {q[i] : i \in 1..Len(q)}
IdxOf(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
DropAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
InsertAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Without(q, x) == IF IdxOf(q, x) = 0 THEN q ELSE DropAt(q, IdxOf(q, x))

----------------------------------------------------------------------------
(* the forest *)
Parent(k, x) == IF \E p \in Nodes : x \in Range(k[p]) THEN CHOOSE p \in Nodes : x \in Range(k[p]) ELSE Nil
RECURSIVE Under(_, _)              \* x and everything below it
Under(k, x) == {x} \cup UNION {Under(k, y) : y \in Range(k[x])}
Els(q, kd) == SelectSeq(q, LAMBDA x : kd[x] = "e")
Detach(k, x) == [p \in Nodes |-> Without(k[p], x)]
AppendF(k, p, x) == [Detach(k, x) EXCEPT ![p] = Append(@, x)]
RemoveF(k, p, x) == IF x \in Range(k[p]) THEN Detach(k, x) ELSE k
ReplaceF(k, p, new, old) == IF new = old THEN k ELSE
  LET d == Detach(k, new) IN [d EXCEPT ![p] = [@ EXCEPT ![IdxOf(@, old)] = new]]

RECURSIVE TextsR(_, _, _, _)
TextsR(k, kd, q, acc) == IF q = <<>> THEN acc
  ELSE TextsR(k, kd, Tail(q), IF kd[q[1]] = "t" THEN Append(acc, q[1]) ELSE TextsR(k, kd, k[q[1]], acc))
Texts(k, kd, x) == TextsR(k, kd, k[x], <<>>)

\* what the links have to be
Sib(q, x, d) == LET i == IdxOf(q, x) IN IF i + d \in 1..Len(q) THEN q[i + d] ELSE Nil
Links(k, kd) == [x \in Nodes |->
  LET p == Parent(k, x)
      q == IF p = Nil THEN <<>> ELSE k[p]
      e == Els(q, kd)
  IN [up |-> p,
      nx |-> IF p = Nil THEN Nil ELSE Sib(q, x, 1), pv |-> IF p = Nil THEN Nil ELSE Sib(q, x, -1),
      ne |-> IF p = Nil \/ kd[x] # "e" THEN Nil ELSE Sib(e, x, 1), pe |-> IF p = Nil \/ kd[x] # "e" THEN Nil ELSE Sib(e, x, -1),
      cn |-> k[x], ch |-> Els(k[x], kd)]]

----------------------------------------------------------------------------
(* the edits, link by link *)
Set(l, x, f, v) == IF x = Nil THEN l ELSE [l EXCEPT ![x] = [@ EXCEPT ![f] = v]]
Last(q) == IF q = <<>> THEN Nil ELSE q[Len(q)]
Clear(l, x) == [l EXCEPT ![x] = [@ EXCEPT !.up = Nil, !.nx = Nil, !.pv = Nil, !.ne = Nil, !.pe = Nil]]
RemoveL(l, kd, p, x) ==
  IF IdxOf(l[p].cn, x) = 0 THEN l
  ELSE LET a == Set(Set(l, l[x].pv, "nx", l[x].nx), l[x].nx, "pv", l[x].pv)
           b == IF kd[x] = "e" THEN Set(Set(Set(a, a[x].pe, "ne", a[x].ne), a[x].ne, "pe", a[x].pe), p, "ch", Without(a[p].ch, x)) ELSE a
           d == Clear(b, x)
       IN Set(d, p, "cn", Without(d[p].cn, x))
AppendL(l0, kd, p, x) ==
  LET l == IF l0[x].up = Nil THEN l0 ELSE RemoveL(l0, kd, l0[x].up, x)
      a == Set(Set(Set(l, Last(l[p].cn), "nx", x), x, "pv", Last(l[p].cn)), x, "nx", Nil)
      e == Last(a[p].ch)
      b == IF kd[x] = "e" THEN Set(Set(Set(Set(a, x, "pe", e), x, "ne", Nil), e, "ne", x), p, "ch", Append(a[p].ch, x)) ELSE a
  IN Set(Set(b, p, "cn", Append(b[p].cn, x)), x, "up", p)
ReplaceL(l0, kd, p, new, old) ==
  IF new = old THEN l0
  ELSE
  LET l == IF l0[new].up = Nil THEN l0 ELSE RemoveL(l0, kd, l0[new].up, new)
      i == IdxOf(l[p].cn, old)
      a == Set(Set(Set(l, p, "cn", [l[p].cn EXCEPT ![i] = new]), new, "nx", l[old].nx), new, "pv", l[old].pv)
      b == Set(Set(Set(a, a[new].nx, "pv", new), a[new].pv, "nx", new), new, "up", p)
      en == kd[new] = "e"  eo == kd[old] = "e"
      \* the element siblings
      before == {j \in 1..(i - 1) : kd[b[p].cn[j]] = "e"}
      after == {j \in (i + 1)..Len(b[p].cn) : kd[b[p].cn[j]] = "e"}
      pe == IF eo THEN b[old].pe ELSE IF before = {} THEN Nil ELSE b[p].cn[CHOOSE j \in before : \A h \in before : h <= j]
      ne == IF eo THEN b[old].ne ELSE IF after = {} THEN Nil ELSE b[p].cn[CHOOSE j \in after : \A h \in after : h >= j]
      c1 == Set(Set(Set(Set(b, new, "pe", pe), new, "ne", ne), pe, "ne", new), ne, "pe", new)
      c == IF en /\ eo THEN Set(c1, p, "ch", [c1[p].ch EXCEPT ![IdxOf(c1[p].ch, old)] = new])
           ELSE IF en THEN Set(c1, p, "ch", IF ne = Nil THEN Append(c1[p].ch, new) ELSE InsertAt(c1[p].ch, IdxOf(c1[p].ch, ne), new))
           ELSE IF eo THEN Set(Set(Set(b, b[old].pe, "ne", b[old].ne), b[old].ne, "pe", b[old].pe), p, "ch", Without(b[p].ch, old))
           ELSE b
  IN Clear(c, old)

----------------------------------------------------------------------------
(* new content: lists of kinds, of which the n-th, if it is an element, has the
   (n+1)-th as its only child when written in a pair                           *)
Contents == {<<>>, <<"t">>, <<"e">>, <<"e", "t">>, <<"t", "e">>, <<"e", "e">>, <<"(et)">>, <<"t", "e", "t">>}
Size(m) == IF m = <<"(et)">> THEN 2 ELSE Len(m)
Unborn == {x \in Nodes : kind[x] = ""}
First == CHOOSE x \in Unborn : \A y \in Unborn : x <= y
\* the forest, the kinds and the links after e was given the content m
SetContent(e, m) ==
  LET old == kids[e]
      f == First
      nested == m = <<"(et)">>
      top == IF nested THEN <<f>> ELSE <<>> \o [i \in 1..Len(m) |-> f + i - 1]
      kd == [x \in Nodes |-> IF x >= f /\ x < f + Size(m) THEN (IF nested THEN (IF x = f THEN "e" ELSE "t") ELSE m[x - f + 1]) ELSE kind[x]]
      k == [x \in Nodes |-> IF x = e THEN top ELSE IF nested /\ x = f THEN <<f + 1>> ELSE kids[x]]
      lk == Links(k, kd)
      l == [x \in Nodes |-> IF x \in Range(old) THEN [L[x] EXCEPT !.up = Nil, !.nx = Nil, !.pv = Nil, !.ne = Nil, !.pe = Nil]
                            ELSE IF x = e THEN [L[x] EXCEPT !.cn = top, !.ch = Els(top, kd)]
                            ELSE IF x >= f /\ x < f + Size(m) THEN lk[x] ELSE L[x]]
  IN [k |-> k, kd |-> kd, l |-> l]

Say(op) == PrintT("T " \o ToJson([a |-> kids, ak |-> kind, an |-> sets, op |-> op, b |-> kids', bk |-> kind', bn |-> sets']))
Init == /\ kids = [x \in Nodes |-> <<>>]
        /\ kind = [x \in Nodes |-> IF x <= NE THEN "e" ELSE IF x <= NE + NT THEN "t" ELSE ""]
        /\ sets = 0
        /\ L = Links(kids, kind)
Exists == {x \in Nodes : kind[x] # ""}
Elements == {x \in Nodes : kind[x] = "e"}
DoAppend == \E p \in Elements, x \in Exists :
  /\ p \notin Under(kids, x)
  /\ kids' = AppendF(kids, p, x) /\ L' = AppendL(L, kind, p, x) /\ UNCHANGED <<kind, sets>>
  /\ Say(<<"append", p, x>>)
DoRemove == \E p \in Elements, x \in Exists :       \* removing a node that is no child fails
  /\ kids' = RemoveF(kids, p, x) /\ L' = RemoveL(L, kind, p, x) /\ UNCHANGED <<kind, sets>>
  /\ Say(<<IF x \in Range(kids[p]) THEN "remove" ELSE "remove!", p, x>>)
DoReplace == \E p \in Elements : \E old \in Range(kids[p]), new \in Exists :
  /\ p \notin Under(kids, new)
  /\ kids' = ReplaceF(kids, p, new, old) /\ L' = ReplaceL(L, kind, p, new, old) /\ UNCHANGED <<kind, sets>>
  /\ Say(<<"replace", p, new, old>>)
DoText == sets < Sets /\ Unborn # {} /\ \E e \in Elements : \E r \in {SetContent(e, <<"t">>)} :
  /\ kids' = r.k /\ kind' = r.kd /\ L' = r.l /\ sets' = sets + 1
  /\ Say(<<"text", e>>)
DoMarkup == sets < Sets /\ Unborn # {} /\ \E e \in Elements, m \in Contents : Size(m) <= Cardinality(Unborn) /\ \E r \in {SetContent(e, m)} :
  /\ kids' = r.k /\ kind' = r.kd /\ L' = r.l /\ sets' = sets + 1
  /\ Say(<<"markup", e, m>>)
Next == DoAppend \/ DoRemove \/ DoReplace \/ DoText \/ DoMarkup
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOK == kids \in [Nodes -> Seq(Nodes)] /\ sets \in 0..Sets
\* every node has at most one place, texts have no children, nothing is its own ancestor
RECURSIVE UpFrom(_, _)
UpFrom(x, d) == IF d = 0 THEN FALSE ELSE IF Parent(kids, x) = Nil THEN TRUE ELSE UpFrom(Parent(kids, x), d - 1)
Forest == /\ \A p, q \in Nodes, x \in Nodes : x \in Range(kids[p]) /\ x \in Range(kids[q]) => p = q
          /\ \A p \in Nodes : Cardinality(Range(kids[p])) = Len(kids[p]) /\ (kind[p] # "e" => kids[p] = <<>>)
          /\ \A x \in Nodes : UpFrom(x, N + 1)
Refines == L = Links(kids, kind)
Show == PrintT("S " \o ToJson([k |-> kids, kd |-> kind, n |-> sets,
          v |-> [x \in Nodes |-> [up |-> L[x].up, nx |-> L[x].nx, pv |-> L[x].pv, ne |-> L[x].ne, pe |-> L[x].pe, cn |-> L[x].cn, ch |-> L[x].ch,
                                  tx |-> IF kind[x] = "e" THEN Texts(kids, kind, x) ELSE <<>>]]]))
=============================================================================
