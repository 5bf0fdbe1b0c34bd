----------------------------- MODULE DataBagTrace -----------------------------
(* Recorded operations on real bags.  An event is [op, a (arguments), ok, r].   *)
(* State: the bags, the number of objects that exist, the kind of each.         *)
EXTENDS Extract, Json, IOUtils
VARIABLES t, l, S
\* dead: after a refused merge (or a partly applied write) the content is not specified.
\* upd: an update computed against `base`; it is meant to be put on top of that base.
New == [c |-> EmptyC, fz |-> FALSE, dead |-> FALSE, upd |-> FALSE, base |-> EmptyC, org |-> EmptyC, touched |-> FALSE, ever |-> FALSE, kid |-> FALSE]
Kind(s, o) == s.kinds[o + 1]
Present(os) == {o \in Range(os) : o >= 0}
Explicit(s) == {o \in 0..(Len(s.kinds) - 1) : s.kinds[o + 1] = 3}
B(s, b) == s.bags[b + 1]
Put(s, b, d) == {[s EXCEPT !.bags[b + 1].c = d, !.bags[b + 1].touched = TRUE]}
Kill(s, b) == {[s EXCEPT !.bags[b + 1].dead = TRUE]}
Fine(e) == e.ok = 1
\* the bags an event reads: its own and the fallbacks
LastArg(e) == e.a[Len(e.a)]
Chain0(s, e, fb) == <<B(s, e.a[1])>> \o [i \in 1..Len(fb) |-> B(s, fb[i])]
Opaque(ch) == \/ \E i \in 1..Len(ch) : ch[i].dead
              \/ \E i \in 1..Len(ch) : ch[i].upd /\ (i = Len(ch) \/ ch[i + 1].upd \/ ch[i + 1].c # ch[i].base)
Contents(ch) == [i \in 1..Len(ch) |-> ch[i].c]
SameSet(q, W) == Len(q) = Cardinality(W) /\ Range(q) = W

\* ------------------------------------------------------------------ reading
Reads == {"ga", "gai", "gr", "gri", "gf", "lsz", "lszi", "lgt", "lgti", "lx", "lxi", "dgt", "dgti", "dsz", "dszi", "dkv", "dkvi",
          "sg", "sgi", "sgm", "sgmi", "sk", "skp"}
AllKind(s, os, k) == \A o \in Present(os) : Kind(s, o) = k
\* expected answer: [ok, r]; some are compared by a relation instead (see ReadOk)
Ans(r) == [ok |-> 1, r |-> r]
No == [ok |-> 0, r |-> <<>>]
Expect(s, e) ==
  LET a == e.a
      ch == Contents(Chain0(s, e, LastArg(e)))
  IN CASE e.op = "ga" -> Ans([i \in 1..Len(a[4]) |-> Pos(CellsA(ch, a[4], a[2])[i])])
       [] e.op \in {"gr", "gf"} -> Ans(CellsA(ch, a[4], a[2]))
       [] e.op = "gai" -> Ans(<<Pos(CellsA(ch, <<a[3]>>, a[2])[1])>>)
       [] e.op = "gri" -> Ans(CellsA(ch, <<a[3]>>, a[2]))
       [] e.op = "lsz" -> IF ~AllKind(s, a[3], 1) THEN No
                          ELSE Ans([i \in 1..Len(a[3]) |-> IF a[3][i] < 0 THEN -1
                                      ELSE IF a[4] = 0 /\ ~HasCell(Ls(ch), a[3][i]) THEN -1 ELSE Len(ListOf(Ls(ch), a[3][i]))])
       [] e.op = "lszi" -> IF ~AllKind(s, <<a[2]>>, 1) THEN No ELSE Ans(<<IF a[2] < 0 THEN -1 ELSE Len(ListOf(Ls(ch), a[2]))>>)
       [] e.op = "lgt" -> IF \E i \in 1..Len(a[3]) : a[3][i] >= 0 /\ a[4][i] # Nil /\ Kind(s, a[3][i]) # 1 THEN No
                          ELSE Ans([i \in 1..Len(a[3]) |-> IF a[3][i] < 0 \/ a[4][i] = Nil THEN 0 ELSE Item(ListOf(Ls(ch), a[3][i]), a[4][i])])
       [] e.op = "lgti" -> IF ~AllKind(s, <<a[2]>>, 1) THEN No ELSE Ans(<<IF a[2] < 0 THEN 0 ELSE Item(ListOf(Ls(ch), a[2]), a[3])>>)
       [] e.op = "lx" -> IF ~AllKind(s, a[3], 1) THEN No
                         ELSE LET qs == [i \in 1..Len(a[3]) |-> IF a[3][i] < 0 THEN <<>> ELSE Slice(ListOf(Ls(ch), a[3][i]), a[4], a[5])]
                              IN Ans([v |-> Flat(qs), s |-> SplitsFrom(0, qs)])
       [] e.op = "lxi" -> IF ~AllKind(s, <<a[2]>>, 1) THEN No ELSE Ans(IF a[2] < 0 THEN <<>> ELSE Slice(ListOf(Ls(ch), a[2]), a[3], a[4]))
       [] e.op = "dgt" -> IF \E i \in 1..Len(a[3]) : a[3][i] >= 0 /\ a[4][i] # 0 /\ Kind(s, a[3][i]) # 2 THEN No
                          ELSE Ans([i \in 1..Len(a[3]) |-> IF a[3][i] < 0 \/ a[4][i] = 0 THEN 0 ELSE Pos(Cell(Ds(ch), <<a[3][i], Can(a[4][i])>>))])
       [] e.op = "dgti" -> IF ~AllKind(s, <<a[2]>>, 2) THEN No ELSE Ans(<<IF a[2] < 0 \/ a[3] = 0 THEN 0 ELSE Pos(Cell(Ds(ch), <<a[2], Can(a[3])>>))>>)
       [] e.op = "dsz" -> IF ~AllKind(s, a[3], 2) THEN No
                          ELSE Ans([i \in 1..Len(a[3]) |-> IF a[3][i] < 0 THEN -1 ELSE Cardinality(KeysOf(ch, a[3][i]))])
       [] e.op = "dszi" -> IF ~AllKind(s, <<a[2]>>, 2) THEN No ELSE Ans(<<IF a[2] < 0 THEN -1 ELSE Cardinality(KeysOf(ch, a[2]))>>)
       [] e.op \in {"dkv", "dkvi"} ->
            LET os == IF e.op = "dkv" THEN a[3] ELSE <<a[2]>>
            IN IF ~AllKind(s, os, 2) THEN No ELSE Ans([i \in 1..Len(os) |-> IF os[i] < 0 THEN {} ELSE KeysOf(ch, os[i])])
       [] e.op = "sg" -> LET x == CellsS(ch, a[4], a[2])
                         IN IF \E i \in 1..Len(x) : a[4][i] >= 0 /\ (~IsSchemaKind(Kind(s, a[4][i])) \/ x[i] <= 0) THEN No ELSE Ans(x)
       [] e.op = "sgi" -> IF a[3] < 0 THEN Ans(<<0>>)
                          ELSE IF ~IsSchemaKind(Kind(s, a[3])) \/ Cell(Ss(ch), <<a[3], a[2]>>) <= 0 THEN No ELSE Ans(CellsS(ch, <<a[3]>>, a[2]))
       [] e.op = "sgm" -> Ans(CellsS(ch, a[4], a[2]))
       [] e.op = "sgmi" -> IF a[3] < 0 THEN Ans(<<-1>>) ELSE IF ~IsSchemaKind(Kind(s, a[3])) THEN No ELSE Ans(CellsS(ch, <<a[3]>>, a[2]))
       [] e.op \in {"sk", "skp"} ->
            IF a[2] < 0 THEN Ans({}) ELSE IF ~IsSchemaKind(Kind(s, a[2])) THEN No
            ELSE Ans({n \in NamesOf(ch, a[2]) : e.op = "sk" \/ Cell(Ss(ch), <<a[2], n>>) > 0})
ReadOk(s, e) ==
  LET x == Expect(s, e)
      ch == Contents(Chain0(s, e, LastArg(e)))
  IN /\ e.ok = x.ok
     /\ Fine(e) =>
          CASE e.op \in {"dkv", "dkvi"} ->
                 LET os == IF e.op = "dkv" THEN e.a[3] ELSE <<e.a[2]>>
                     K == e.r.k
                     W == e.r.v
                 IN /\ "half" \notin DOMAIN e.r /\ K.s = W.s /\ Len(K.s) = Len(os) + 1 /\ K.s[1] = 0
                    /\ Len(K.v) = K.s[Len(K.s)] /\ Len(W.v) = Len(K.v)
                    /\ \A i \in 1..Len(os) : /\ SameSet(Cans(Part(K.v, K.s, i)), x.r[i])
                                             /\ \A j \in (K.s[i] + 1)..K.s[i + 1] : W.v[j] = Pos(Cell(Ds(ch), <<os[i], Can(K.v[j])>>))
            [] e.op \in {"sk", "skp"} -> SameSet(e.r, x.r)
            [] e.op = "sgm" -> Len(e.r) = Len(x.r) /\ \A i \in 1..Len(e.r) : IF e.a[4][i] < 0 THEN e.r[i] <= 0 ELSE e.r[i] = x.r[i]
            [] OTHER -> e.r = x.r

\* ------------------------------------------------------------------ writing
\* a batch on lists (dicts) skips what is no list (dict), applies to the rest and says so
KindOk(s, os, k) == [i \in 1..Len(os) |-> os[i] >= 0 /\ Kind(s, os[i]) = k]
AllOk(s, os, k) == \A i \in 1..Len(os) : os[i] < 0 \/ Kind(s, os[i]) = k
\* the same, with the lists that the batch reached but did not change left set or unset
ListWrite(s, e, os, used, F(_, _)) ==
  LET b == e.a[1]
      c == B(s, b).c
      u == [i \in 1..Len(os) |-> IF used[i] THEN os[i] ELSE -1]
      ok == KindOk(s, u, 1)
      L2 == Fold(c.L, u, ok, F, 1)
      lazy == {o \in DOMAIN L2 : o \notin DOMAIN c.L /\ L2[o] = <<>>}
      L3 == [o \in DOMAIN L2 \ lazy |-> L2[o]]
  IN IF Fine(e) # AllOk(s, u, 1) THEN {}
     ELSE Put(s, b, [c EXCEPT !.L = L2]) \cup Put(s, b, [c EXCEPT !.L = L3])
Every(os) == [i \in 1..Len(os) |-> TRUE]
DictWrite(s, e, os, used, D2) ==
  LET b == e.a[1]
  IN IF Fine(e) # AllOk(s, [i \in 1..Len(os) |-> IF used[i] THEN os[i] ELSE -1], 2) THEN {} ELSE Put(s, b, [B(s, b).c EXCEPT !.D = D2])
SchemaVal(s, v) == v = 0 \/ (v >= 180 /\ v < 190) \/ (v >= 1000 /\ IsSchemaKind(Kind(s, v - 1000)))
SchemaWrite(s, e, os, vs, c2) ==
  IF (\A o \in Present(os) : IsSchemaKind(Kind(s, o))) /\ (\A i \in 1..Len(vs) : SchemaVal(s, vs[i]))
  THEN IF Fine(e) THEN Put(s, e.a[1], c2) ELSE {}
  ELSE IF Fine(e) THEN {} ELSE Kill(s, e.a[1])
Rep(v, n) == [i \in 1..n |-> v]
Writes == {"sa", "sai", "sf", "cf", "cf1", "su", "lap", "lapi", "lex", "lexi", "lrp", "lrpi", "lrm", "lrmi", "lri", "lst", "lsti", "lpo", "lpoi",
           "dst", "dsti", "dcl", "dcli", "ss", "ss1", "ssi", "ssf", "sse", "sd", "sdi", "mg"}
Write(s, e) ==
  LET a == e.a
      b == a[1]
      c == B(s, b).c
      On(f(_)) == IF Fine(e) THEN Put(s, b, f(c)) ELSE {}
      Item1(o, F(_, _)) == IF o < 0 THEN (IF Fine(e) THEN {s} ELSE {}) ELSE ListWrite(s, e, <<o>>, <<TRUE>>, F)
  IN CASE e.op = "sa" -> On(LAMBDA x : SetA(x, a[4], a[2], a[5]))
       [] e.op = "sai" -> On(LAMBDA x : SetA(x, <<a[3]>>, a[2], <<a[4]>>))
       [] e.op = "sf" -> On(LAMBDA x : SetFull(x, a[3], a[2], a[4]))
       [] e.op \in {"cf", "cf1"} ->
            LET n == IF e.op = "cf1" THEN 1 ELSE a[3]
                vs == IF e.op = "cf1" THEN a[3] ELSE a[4]
                os == [i \in 1..n |-> Len(s.kinds) + i - 1]
            IN IF ~Fine(e) THEN {}
               ELSE IF a[2] = <<>> /\ e.op = "cf" THEN (IF e.r = <<>> THEN {s} ELSE {})
               ELSE IF e.r # os THEN {}
               ELSE Put([s EXCEPT !.kinds = @ \o Rep(0, n)], b, SetFields(c, os, a[2], vs))
       \* which objects did not have the attribute yet; they have it now
       [] e.op = "su" -> LET P == Present(a[4])
                             M == {o \in P : Cell(<<c.A>>, <<o, a[2]>>) <= 0}
                         \* a fork may refuse
                         IN IF ~Fine(e) THEN (IF B(s, b).kid THEN {s} ELSE {})
                            ELSE IF ~SameSet(e.r, {1000 + o : o \in M}) THEN {}
                            ELSE Put(s, b, [c EXCEPT !.A = [k \in {<<o, a[2]>> : o \in P} |-> 170] @@ @])
       [] e.op = "lap" -> ListWrite(s, e, a[3], Every(a[3]), LAMBDA q, i : Append(q, a[4][i]))
       [] e.op = "lapi" -> Item1(a[2], LAMBDA q, i : Append(q, a[3]))
       [] e.op = "lex" -> ListWrite(s, e, a[3], Every(a[3]), LAMBDA q, i : q \o Part(a[4], a[5], i))
       [] e.op = "lexi" -> Item1(a[2], LAMBDA q, i : q \o a[3])
       [] e.op = "lrp" -> ListWrite(s, e, a[3], Every(a[3]), LAMBDA q, i : Replace(q, a[4], a[5], Part(a[6], a[7], i)))
       [] e.op = "lrpi" -> Item1(a[2], LAMBDA q, i : Replace(q, a[3], a[4], a[5]))
       [] e.op = "lrm" -> ListWrite(s, e, a[3], Every(a[3]), LAMBDA q, i : IF LFrom(a[4], Len(q)) < LTo(a[5], Len(q)) THEN Replace(q, a[4], a[5], <<>>) ELSE q)
       [] e.op = "lrmi" -> Item1(a[2], LAMBDA q, i : IF LFrom(a[3], Len(q)) < LTo(a[4], Len(q)) THEN Replace(q, a[3], a[4], <<>>) ELSE q)
       [] e.op = "lri" -> ListWrite(s, e, a[3], [i \in 1..Len(a[3]) |-> a[4][i] # Nil], LAMBDA q, i : Drop(q, a[4][i]))
       [] e.op = "lst" -> ListWrite(s, e, a[3], [i \in 1..Len(a[3]) |-> a[4][i] # Nil], LAMBDA q, i : WithItem(q, a[4][i], a[5][i]))
       [] e.op = "lsti" -> Item1(a[2], LAMBDA q, i : WithItem(q, a[3], a[4]))
       [] e.op = "lpo" -> IF Fine(e) /\ e.r # Pops(c.L, a[3], a[4], 1) THEN {}
                          ELSE ListWrite(s, e, a[3], [i \in 1..Len(a[3]) |-> a[4][i] # Nil], LAMBDA q, i : Drop(q, a[4][i]))
       [] e.op = "lpoi" -> IF Fine(e) /\ e.r # <<IF a[2] < 0 THEN 0 ELSE Item(ListOf(<<c.L>>, a[2]), a[3])>> THEN {}
                           ELSE Item1(a[2], LAMBDA q, i : Drop(q, a[3]))
       \* floats are no keys: the call is refused as a whole
       [] e.op = "dst" -> IF \E i \in 1..Len(a[4]) : FloatKey(a[4][i]) THEN (IF Fine(e) THEN {} ELSE {s})
                          ELSE DictWrite(s, e, a[3], [i \in 1..Len(a[3]) |-> a[4][i] # 0], SetD(c.D, a[3], KindOk(s, a[3], 2), Cans(a[4]), a[5], 1))
       [] e.op = "dsti" -> IF a[2] < 0 THEN (IF Fine(e) THEN {s} ELSE {})
                           ELSE IF Kind(s, a[2]) # 2 \/ FloatKey(a[3]) THEN (IF Fine(e) THEN {} ELSE {s})
                           ELSE On(LAMBDA x : [x EXCEPT !.D = SetD(@, <<a[2]>>, <<TRUE>>, <<Can(a[3])>>, <<a[4]>>, 1)])
       [] e.op = "dcl" -> DictWrite(s, e, a[3], Every(a[3]), ClearD(c.D, {o \in Present(a[3]) : Kind(s, o) = 2}))
       [] e.op = "dcli" -> IF a[2] < 0 THEN (IF Fine(e) THEN {s} ELSE {}) ELSE DictWrite(s, e, <<a[2]>>, <<TRUE>>, ClearD(c.D, {a[2]}))
       \* what is given for a missing schema may or may not be looked at
       [] e.op = "ss" -> SchemaWrite(s, e, a[4], IF Fine(e) THEN [i \in 1..Len(a[5]) |-> IF a[4][i] < 0 THEN 0 ELSE a[5][i]] ELSE a[5], [c EXCEPT !.S = SetCells(@, a[4], a[2], a[5])])
       [] e.op = "ss1" -> SchemaWrite(s, e, a[4], <<a[5]>>, [c EXCEPT !.S = SetCells(@, a[4], a[2], Rep(a[5], Len(a[4])))])
       [] e.op = "ssi" -> IF a[3] < 0 THEN (IF Fine(e) THEN {s} ELSE {})
                          ELSE IF ~SchemaVal(s, a[4]) \/ ~IsSchemaKind(Kind(s, a[3])) THEN (IF Fine(e) THEN {} ELSE {s})
                          ELSE On(LAMBDA x : [x EXCEPT !.S = SetCells(@, <<a[3]>>, a[2], <<a[4]>>)])
       [] e.op \in {"ssf", "sse"} ->
            LET RECURSIVE SF(_, _)
                SF(f, i) == IF i > Len(a[4]) THEN f ELSE SF(SetCells(f, a[3], a[4][i], Rep(a[5][i], Len(a[3]))), i + 1)
            IN SchemaWrite(s, e, a[3], a[5], [c EXCEPT !.S = SF(@, 1)])
       \* removing an attribute that is not there is refused
       [] e.op \in {"sd", "sdi"} ->
            LET os == IF e.op = "sd" THEN a[4] ELSE <<a[3]>>
            IN IF \E o \in Present(os) : ~IsSchemaKind(Kind(s, o)) \/ Cell(<<c.S>>, <<o, a[2]>>) <= 0
               THEN (IF Fine(e) THEN {} ELSE {s})
               ELSE On(LAMBDA x : [x EXCEPT !.S = SetCells(@, os, a[2], Rep(0, Len(os)))])
       [] e.op = "mg" ->
            LET o == B(s, a[2])
            IN IF o.dead THEN Kill(s, b)
               ELSE IF o.upd THEN IF o.base = c /\ a[3] = 2 /\ a[4] = 2 THEN (IF Fine(e) THEN Put(s, b, o.c) ELSE {}) ELSE Kill(s, b)
               ELSE IF Conflicts(Loose(c), Loose(o.c), a[3], a[4], Explicit(s)) THEN (IF Fine(e) THEN {} ELSE Kill(s, b))
               \* an int32 and an int64 of equal value may or may not pass for the same
               ELSE IF Conflicts(c, o.c, a[3], a[4], Explicit(s)) THEN Kill(s, b)
               ELSE On(LAMBDA x : Merged(x, o.c, a[3], a[4], Explicit(s)))

\* ------------------------------------------------------------------ content
\* everything the bag holds, nothing else; only a removed cell may be left out
Extracted(s, e, r, c) ==
  LET SA == {o \in 0..(Len(s.kinds) - 1) : IsSchemaKind(Kind(s, o))}
      CellsIn(q, f, isS) == /\ \A i \in 1..Len(q) : LET k == <<q[i][1], q[i][2]>> IN (q[i][1] \in SA) = isS => k \in DOMAIN f /\ f[k] = q[i][3]
                            /\ \A k \in DOMAIN f : f[k] > 0 => \E i \in 1..Len(q) : q[i][1] = k[1] /\ q[i][2] = k[2]
                            /\ \A i, j \in 1..Len(q) : i # j => q[i][1] # q[j][1] \/ q[i][2] # q[j][2]
      \* a schema's attributes come either as attributes or as the keys and values of its dict (or of one for its allocation)
      ListsIn(q) == /\ \A i \in 1..Len(q) : /\ q[i].u = 1 => q[i].o \notin DOMAIN c.L /\ q[i].v = <<>>
                                            /\ q[i].u = 0 => q[i].o \in DOMAIN c.L /\ q[i].v = c.L[q[i].o]
                    /\ \A o \in DOMAIN c.L : \E i \in 1..Len(q) : q[i].o = o /\ q[i].u = 0
                    /\ \A i, j \in 1..Len(q) : i # j => q[i].o # q[j].o
  IN Fine(e) /\ CellsIn(r.a, c.A, FALSE) /\ ListsIn(r.l)
     /\ LET d0 == SelectSeq(r.d, LAMBDA x : x[1] \notin SA /\ ~(x[1] = -1 /\ x[3] = 170))
            dd == [i \in 1..Len(d0) |-> <<d0[i][1], Can(d0[i][2]), d0[i][3]>>] IN CellsIn(dd, c.D, FALSE)

Step(s, e) ==
  LET a == e.a
      Fresh(x) == IF Fine(e) /\ e.r = <<Len(s.bags)>> THEN {[s EXCEPT !.bags = Append(@, x)]} ELSE {}
  IN IF e.ok = -1 THEN {} ELSE  \* it never returned
     CASE e.op = "nb" -> Fresh(New)
       \* how many of the slices given or received earlier are no longer what they were
       [] e.op = "kept" -> IF e.r = <<0>> THEN {s} ELSE {}
       [] e.op = "fork" -> LET p == B(s, a[1]) IN Fresh([New EXCEPT !.kid = TRUE, !.c = p.c, !.org = p.c, !.dead = p.dead \/ p.upd, !.ever = p.ever \/ p.touched])
       [] e.op = "fz" -> {[s EXCEPT !.bags[a[1] + 1].fz = TRUE]}
       [] e.op = "drop" -> {[s EXCEPT !.bags[a[1] + 1] = [New EXCEPT !.dead = TRUE]]}
       [] e.op = "isf" -> IF e.r = <<IF B(s, a[1]).fz THEN 1 ELSE 0>> THEN {s} ELSE {}
       [] e.op = "ise" -> LET x == B(s, a[1])
                          IN IF x.dead \/ x.upd THEN {s}
                             ELSE IF (~x.touched /\ ~x.ever => e.r = <<1>>) /\ (x.c # EmptyC => e.r = <<0>>) THEN {s} ELSE {}
       [] e.op = "isp" -> LET x == B(s, a[1])
                          IN IF x.dead \/ x.upd THEN {s}
                             ELSE IF (~x.touched => e.r = <<1>>) /\ (x.c # x.org => e.r = <<0>>) THEN {s} ELSE {}
       [] e.op = "mu" -> LET x == B(s, a[1])
                             o == B(s, a[2])
                         IN Fresh([New EXCEPT !.c = Over(x.c, o.c), !.base = x.c, !.upd = TRUE, !.dead = x.dead \/ o.dead \/ x.upd \/ o.upd])
       [] e.op = "ex" -> LET x == B(s, a[1]) IN IF x.dead \/ x.upd \/ Extracted(s, e, e.r, x.c) THEN {s} ELSE {}
       \* a fresh bag with what is reachable, with the schemas on the way and nothing else; which objects are at the depth limit
       [] e.op = "xt" ->
            LET bs == Chain0(s, e, a[2])
                ch == Contents(bs)
                x == Reached(ch, a[8], a[6], a[5])
                c == Copy(ch, x)
                add(y) == {[s EXCEPT !.bags = Append(@, y)]}
                Right == /\ e.r.b = Len(s.bags) /\ Extracted(s, e, e.r.c, c)
                         /\ SameSet(e.r.leaf, IF a[5] < 0 THEN {} ELSE {1000 + o : o \in x.leaf})
                         /\ {<<q[1], q[2], q[3]>> : q \in {y \in Range(e.r.s) : y[3] > 0}} = {<<k[1], k[2], c.S[k]>> : k \in DOMAIN c.S}
            IN IF Opaque(bs) \/ x.lost \/ ~Fine(e) THEN (IF Opaque(bs) \/ x.lost \/ x.bad \/ s.odd = 1 THEN add([New EXCEPT !.dead = TRUE]) ELSE {})
               ELSE IF x.bad \/ ~Right THEN {} ELSE add([New EXCEPT !.c = c, !.touched = TRUE])
       [] e.op \in Reads -> IF Opaque(Chain0(s, e, LastArg(e))) \/ ReadOk(s, e) THEN {s} ELSE {}
       [] e.op \in Writes -> IF B(s, a[1]).fz
                             THEN (IF e.ok # 0 THEN {} ELSE IF e.op \in {"cf", "cf1"} THEN {[s EXCEPT !.kinds = @ \o Rep(0, IF e.op = "cf1" THEN 1 ELSE a[3])]} ELSE {s})
                             ELSE IF B(s, a[1]).dead \/ B(s, a[1]).upd
                                  THEN (IF e.op \in {"cf", "cf1"} THEN Write(s, e) ELSE Kill(s, a[1]))
                             ELSE Write(s, e)
Why(s, e) == IF e.op = "xt" THEN LET ch == Contents(Chain0(s, e, e.a[2])) IN ToString([want |-> Copy(ch, Reached(ch, e.a[8], e.a[6], e.a[5])), reached |-> Reached(ch, e.a[8], e.a[6], e.a[5]), chain |-> ch])
             ELSE IF e.op \in Reads THEN ToString([want |-> Expect(s, e), chain |-> Contents(Chain0(s, e, LastArg(e)))])
             ELSE IF Len(e.a) > 0 /\ e.a[1] < Len(s.bags) THEN ToString([frozen |-> B(s, e.a[1]).fz, content |-> B(s, e.a[1]).c]) ELSE ""
TracesF == JsonDeserialize(IOEnv.TRACES)
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {[bags |-> <<>>, kinds |-> tr.x.kinds, odd |-> tr.x.odd]},
        StepOf <- LAMBDA s, e : Step(s, e), WhyOf <- LAMBDA s, e : Why(s, e)
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
