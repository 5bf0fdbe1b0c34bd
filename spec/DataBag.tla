------------------------------- MODULE DataBag -------------------------------
(* Bags of triples (koladata/internal/data_bag): what a bag holds, how it is    *)
(* written, read through a chain of fallbacks, forked, frozen and merged.       *)
(*                                                                              *)
(* The content of a bag is four partial functions:                              *)
(*   A : <<object, attribute>> -> value      attributes                         *)
(*   L : object -> sequence of values        lists                              *)
(*   D : <<object, key>> -> value            dicts                              *)
(*   S : <<object, attribute>> -> value      schemas                            *)
(* Outside the domain a cell is unset; a cell holding 0 was explicitly removed  *)
(* (or, in a dict, holds a missing value).  How objects are allocated and which *)
(* of the storage forms holds a cell is not part of the state: no answer may    *)
(* depend on it.                                                                *)
(*                                                                              *)
(* Objects are 0..n-1 (a negative number: no object), values are positive       *)
(* integers, 0 is the missing value, -1 an unset cell, -99 no index.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
EmptyC == [A |-> <<>>, L |-> <<>>, D |-> <<>>, S |-> <<>>]
Nil == -99
Top(W) == CHOOSE x \in W : \A y \in W : y <= x
Low(W) == CHOOSE x \in W : \A y \in W : x <= y
Lesser(a, b) == IF a < b THEN a ELSE b
Range(q) == {q[i] : i \in 1..Len(q)}
Pos(x) == IF x < 0 THEN 0 ELSE x
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Flat(Tail(qs))
\* the cell k along a chain of partial functions
RECURSIVE Cell(_, _)
Cell(fs, k) == IF fs = <<>> THEN -1 ELSE IF k \in DOMAIN Head(fs) THEN Head(fs)[k] ELSE Cell(Tail(fs), k)
RECURSIVE HasCell(_, _)
HasCell(fs, k) == fs # <<>> /\ (k \in DOMAIN Head(fs) \/ HasCell(Tail(fs), k))
RECURSIVE ListOf(_, _)
ListOf(fs, o) == IF fs = <<>> THEN <<>> ELSE IF o \in DOMAIN Head(fs) THEN Head(fs)[o] ELSE ListOf(Tail(fs), o)
As(ch) == [i \in 1..Len(ch) |-> ch[i].A]
Ls(ch) == [i \in 1..Len(ch) |-> ch[i].L]
Ds(ch) == [i \in 1..Len(ch) |-> ch[i].D]
Ss(ch) == [i \in 1..Len(ch) |-> ch[i].S]

\* ------------------------------------------------------------- attributes
\* one call: for an object given several times the last present value counts; a present object without a value loses its own
SetCells(f, os, a, vs) ==
  LET K == {i \in 1..Len(os) : os[i] >= 0}
      V(o) == LET P == {i \in K : os[i] = o /\ vs[i] # 0} IN IF P = {} THEN 0 ELSE vs[Top(P)]
  IN [k \in {<<os[i], a>> : i \in K} |-> V(k[1])] @@ f
SetA(c, os, a, vs) == [c EXCEPT !.A = SetCells(@, os, a, vs)]
\* a whole allocation at once: unset cells keep what the bag has
SetFull(c, os, a, cs) ==
  [c EXCEPT !.A = [k \in {<<os[i], a>> : i \in {j \in 1..Len(os) : cs[j] # -1}} |->
                     cs[CHOOSE i \in 1..Len(os) : os[i] = k[1] /\ cs[i] # -1]] @@ @]
RECURSIVE SetFields(_, _, _, _)
SetFields(c, os, as, vs) ==
  IF as = <<>> THEN c
  ELSE SetFields(SetA(c, os, Head(as), SubSeq(vs, 1, Len(os))), os, Tail(as), SubSeq(vs, Len(os) + 1, Len(vs)))
CellsA(ch, os, a) == [i \in 1..Len(os) |-> IF os[i] < 0 THEN 0 ELSE Cell(As(ch), <<os[i], a>>)]

\* ------------------------------------------------------------------ lists
\* Python's [f:t] on a list of n items
LFrom(f, n) == IF f < 0 THEN Pos(f + n) ELSE Lesser(f, n)
LTo(t, n) == IF t = Nil THEN n ELSE LFrom(t, n)
Slice(q, f, t) == SubSeq(q, LFrom(f, Len(q)) + 1, LTo(t, Len(q)))
At(q, i) == LET j == IF i < 0 THEN i + Len(q) ELSE i IN IF i # Nil /\ j >= 0 /\ j < Len(q) THEN j + 1 ELSE 0
Item(q, i) == IF At(q, i) = 0 THEN 0 ELSE q[At(q, i)]
WithItem(q, i, v) == IF At(q, i) = 0 THEN q ELSE [q EXCEPT ![At(q, i)] = v]
Drop(q, i) == IF At(q, i) = 0 THEN q ELSE SubSeq(q, 1, At(q, i) - 1) \o SubSeq(q, At(q, i) + 1, Len(q))
Replace(q, f, t, vs) == LET a == LFrom(f, Len(q))
                            b == LTo(t, Len(q))
                        IN SubSeq(q, 1, a) \o vs \o SubSeq(q, (IF a < b THEN b ELSE a) + 1, Len(q))
Part(vs, sp, i) == SubSeq(vs, sp[i] + 1, sp[i + 1])
\* a batch is applied list by list, in order; F(q, i) is what happens to the i-th list
RECURSIVE Fold(_, _, _, _, _)
Fold(L, os, ok, F(_, _), i) ==
  IF i > Len(os) THEN L
  ELSE IF os[i] < 0 \/ ~ok[i] THEN Fold(L, os, ok, F, i + 1)
  ELSE Fold((os[i] :> F(ListOf(<<L>>, os[i]), i)) @@ L, os, ok, F, i + 1)
RECURSIVE Pops(_, _, _, _)
Pops(L, os, ix, i) ==
  IF i > Len(os) THEN <<>>
  ELSE IF os[i] < 0 \/ ix[i] = Nil THEN <<0>> \o Pops(L, os, ix, i + 1)
  ELSE LET q == ListOf(<<L>>, os[i]) IN <<Item(q, ix[i])>> \o Pops((os[i] :> Drop(q, ix[i])) @@ L, os, ix, i + 1)
ListsOf(ch, os) == [i \in 1..Len(os) |-> IF os[i] < 0 THEN <<>> ELSE ListOf(Ls(ch), os[i])]
RECURSIVE SplitsFrom(_, _)
SplitsFrom(n, qs) == IF qs = <<>> THEN <<n>> ELSE <<n>> \o SplitsFrom(n + Len(Head(qs)), Tail(qs))

\* ------------------------------------------------------------------ dicts
RECURSIVE SetD(_, _, _, _, _, _)
SetD(D, os, ok, ks, vs, i) ==
  IF i > Len(os) THEN D
  ELSE SetD(IF os[i] < 0 \/ ~ok[i] \/ ks[i] = 0 THEN D ELSE (<<os[i], ks[i]>> :> vs[i]) @@ D, os, ok, ks, vs, i + 1)
ClearD(D, os) == [k \in DOMAIN D |-> IF k[1] \in os THEN 0 ELSE D[k]]
KeysOf(ch, o) == UNION {{k[2] : k \in {x \in DOMAIN ch[i].D : x[1] = o}} : i \in 1..Len(ch)}
\* int32 and int64 keys of equal value are one key
Can(k) == IF k >= 110 /\ k < 120 THEN k - 10 ELSE k
Cans(q) == [i \in 1..Len(q) |-> Can(q[i])]
FloatKey(k) == k >= 140 /\ k < 160

\* ---------------------------------------------------------------- schemas
IsSchemaKind(k) == k \in {3, 4}
NamesOf(ch, o) == UNION {{k[2] : k \in {x \in DOMAIN ch[i].S : x[1] = o}} : i \in 1..Len(ch)}
CellsS(ch, os, a) == [i \in 1..Len(os) |-> IF os[i] < 0 THEN 0 ELSE Cell(Ss(ch), <<os[i], a>>)]

\* ---------------------------------------------------------------- merging
\* policies: 0 refuse a conflict, 1 keep one's own, 2 take the other's
Conflict(f, g, pol(_)) == \E k \in DOMAIN f \cap DOMAIN g : pol(k) = 0 /\ f[k] # g[k]
Join(f, g, pol(_)) == [k \in DOMAIN f \cup DOMAIN g |->
                         IF k \notin DOMAIN g \/ (k \in DOMAIN f /\ pol(k) # 2) THEN f[k] ELSE g[k]]
\* the schema policy governs explicit schemas, the data policy everything else
Conflicts(c, d, dp, sp, explicit) ==
  \/ Conflict(c.A, d.A, LAMBDA k : dp) \/ Conflict(c.L, d.L, LAMBDA k : dp) \/ Conflict(c.D, d.D, LAMBDA k : dp)
  \/ Conflict(c.S, d.S, LAMBDA k : IF k[1] \in explicit THEN sp ELSE dp)
Merged(c, d, dp, sp, explicit) ==
  [A |-> Join(c.A, d.A, LAMBDA k : dp), L |-> Join(c.L, d.L, LAMBDA k : dp), D |-> Join(c.D, d.D, LAMBDA k : dp),
   S |-> Join(c.S, d.S, LAMBDA k : IF k[1] \in explicit THEN sp ELSE dp)]
Wide(v) == IF (v >= 110 /\ v < 120) \/ (v >= 150 /\ v < 160) THEN v - 10 ELSE v
Loose(c) == [A |-> [k \in DOMAIN c.A |-> Wide(c.A[k])], L |-> [o \in DOMAIN c.L |-> [i \in DOMAIN c.L[o] |-> Wide(c.L[o][i])]],
             D |-> [k \in DOMAIN c.D |-> Wide(c.D[k])], S |-> c.S]
Over(c, d) == Merged(c, d, 2, 2, {})
Reverse(p) == IF p = 0 THEN 0 ELSE 3 - p
==============================================================================
