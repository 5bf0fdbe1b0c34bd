-------------------------------- MODULE KView --------------------------------
(* Koda views: jagged arrays of Python values with vectorised operations.      *)
(*                                                                             *)
(* A value is a record [k, n, v, q]: k = "N" (None), "P" (present), "I" (int   *)
(* n), "S" (one-character string v of rank n), "T" (tuple q), "R" (reference v *)
(* to a mutable object in the heap).  A view is [d |-> depth, t |-> value]     *)
(* whose value is a tuple of tuples down to depth d.  Heap objects are lists   *)
(* (q), dicts and attribute holders (m: sequence of <<key, value>>).           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
V(k, n, v, q) == [k |-> k, n |-> n, v |-> v, q |-> q]
None == V("N", 0, "", <<>>)
Pres == V("P", 0, "", <<>>)
Err == V("E", 0, "", <<>>)
Tup(q) == V("T", 0, "", q)
Str(s, r) == V("S", r, s, <<>>)
Num(n) == V("I", n, "", <<>>)
Bool(b) == IF b THEN Pres ELSE None
View(d, t) == [d |-> d, t |-> t]
Bad == [d |-> -1, t |-> Err]                          \* the operation is refused
Set(q) == {q[i] : i \in 1..Len(q)}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Flat(Tail(qs))
KindOf(h, x) == IF x.k = "R" THEN h[x.v].k ELSE x.k

\* --- Python values
RECURSIVE Eq(_, _, _)
Eq(h, a, b) ==
  LET ka == KindOf(h, a)
      kb == KindOf(h, b)
  IN CASE ka # kb -> FALSE
       [] ka = "T" -> Len(a.q) = Len(b.q) /\ \A i \in 1..Len(a.q) : Eq(h, a.q[i], b.q[i])
       [] ka = "list" -> a = b \/ LET x == h[a.v].q
                                      y == h[b.v].q
                                  IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : Eq(h, x[i], y[i])
       [] ka = "dict" -> a = b \/ LET x == h[a.v].m
                                      y == h[b.v].m
                                  IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : \E j \in 1..Len(y) :
                                        Eq(h, x[i][1], y[j][1]) /\ Eq(h, x[i][2], y[j][2])
       [] OTHER -> a = b
\* "lt", "eq", "gt" or "err" (not ordered)
RECURSIVE Cmp(_, _, _)
Cmp(h, a, b) ==
  LET ka == KindOf(h, a)
      kb == KindOf(h, b)
      Nc(x, y) == IF x < y THEN "lt" ELSE IF x = y THEN "eq" ELSE "gt"
      Lex(x, y) == LET D == {i \in 1..(IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)) : ~Eq(h, x[i], y[i])}
                   IN IF D = {} THEN Nc(Len(x), Len(y))
                      ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN Cmp(h, x[i], y[i])
  IN CASE ka # kb -> "err"
       [] ka \in {"I", "S"} -> Nc(a.n, b.n)
       [] ka = "T" -> Lex(a.q, b.q)
       [] ka = "list" -> Lex(h[a.v].q, h[b.v].q)
       [] OTHER -> "err"
RECURSIVE Hashable(_, _)
Hashable(h, x) == CASE x.k = "T" -> \A i \in 1..Len(x.q) : Hashable(h, x.q[i])
                    [] x.k = "R" -> h[x.v].k = "obj"
                    [] OTHER -> TRUE
Find(h, m, key) == {i \in 1..Len(m) : Eq(h, m[i][1], key)}
Put(h, m, key, val) == IF Find(h, m, key) = {} THEN Append(m, <<key, val>>)
                       ELSE LET i == CHOOSE i \in Find(h, m, key) : TRUE IN [m EXCEPT ![i] = <<m[i][1], val>>]
Elems(h, x) ==                                        \* iteration, Err if not iterable
  CASE x.k = "N" -> Tup(<<>>)
    [] x.k = "T" -> x
    [] x.k = "S" -> Tup(<<x>>)
    [] KindOf(h, x) = "list" -> Tup(h[x.v].q)
    [] KindOf(h, x) = "dict" -> Tup([i \in 1..Len(h[x.v].m) |-> h[x.v].m[i][1]])
    [] OTHER -> Err
Norm(n, len) == IF n < 0 THEN n + len ELSE n
Clamp(n, len) == LET m == Norm(n, len) IN IF m < 0 THEN 0 ELSE IF m > len THEN len ELSE m
Range(h, x, lo, hi) ==                                \* x[lo:hi] as a tuple
  IF x.k = "N" THEN Tup(<<>>)
  ELSE IF ~(x.k \in {"T", "S"} \/ KindOf(h, x) = "list") THEN Err
  ELSE LET q == Elems(h, x).q
           a == IF lo.k = "N" THEN 0 ELSE Clamp(lo.n, Len(q))
           b == IF hi.k = "N" THEN Len(q) ELSE Clamp(hi.n, Len(q))
       IN Tup(SubSeq(q, a + 1, b))
GetItem(h, x, y) ==
  CASE x.k \in {"T", "S"} \/ KindOf(h, x) = "list" ->
         IF y.k # "I" THEN Err
         ELSE LET q == Elems(h, x).q
                  i == Norm(y.n, Len(q))
              IN IF i >= 0 /\ i < Len(q) THEN q[i + 1] ELSE None
    [] KindOf(h, x) = "dict" ->
         IF ~Hashable(h, y) THEN Err
         ELSE LET F == Find(h, h[x.v].m, y) IN IF F = {} THEN None ELSE h[x.v].m[CHOOSE i \in F : TRUE][2]
    [] OTHER -> Err
GetAttr(h, x, a, hasdef, def) ==
  LET F == IF KindOf(h, x) = "obj" THEN {i \in 1..Len(h[x.v].m) : h[x.v].m[i][1].v = a} ELSE {}
  IN IF F = {} THEN (IF hasdef THEN def ELSE Err)
     ELSE LET w == h[x.v].m[CHOOSE i \in F : TRUE][2] IN IF hasdef /\ w.k = "N" THEN def ELSE w

\* --- shapes: all arguments broadcast to the deepest one; leaves hold the argument tuples
RECURSIVE Zip(_, _, _)
Zip(ds, ts, c) ==
  LET D == {i \in 1..Len(ds) : ds[i] > c}
  IN IF D = {} THEN V("Z", 0, "", ts)
     ELSE IF \E i, j \in D : Len(ts[i].q) # Len(ts[j].q) THEN Err
     ELSE Tup([j \in 1..Len(ts[CHOOSE i \in D : TRUE].q) |->
                 Zip(ds, [i \in 1..Len(ds) |-> IF i \in D THEN ts[i].q[j] ELSE ts[i]], c + 1)])
RECURSIVE Leaves(_, _)                                \* the nodes d levels down, in order
Leaves(t, d) == IF d = 0 \/ t.k = "E" THEN <<t>> ELSE Flat([i \in 1..Len(t.q) |-> Leaves(t.q[i], d - 1)])
Depth(vs) == Max({vs[i].d : i \in 1..Len(vs)})
ZipV(vs) == Zip([i \in 1..Len(vs) |-> vs[i].d], [i \in 1..Len(vs) |-> vs[i].t], 0)
Broken(t, d) == \E i \in 1..Len(Leaves(t, d)) : Leaves(t, d)[i].k = "E"

Collapse(h, q) == LET P == SelectSeq(q, LAMBDA x : x.k # "N")
                  IN IF P = <<>> THEN None
                     ELSE IF \A i \in 1..Len(P) : Eq(h, P[1], P[i]) THEN P[1] ELSE None
Select(x, f) == IF Len(x.q) # Len(f.q) \/ \E i \in 1..Len(f.q) : f.q[i].k \notin {"P", "N"} THEN Err
                ELSE LET RECURSIVE S(_)
                         S(i) == IF i > Len(x.q) THEN <<>> ELSE (IF f.q[i].k = "P" THEN <<x.q[i]>> ELSE <<>>) \o S(i + 1)
                     IN Tup(S(1))
InvSelect(x, f) == LET P == {i \in 1..Len(f.q) : f.q[i].k = "P"}
                   IN IF Cardinality(P) # Len(x.q) \/ \E i \in 1..Len(f.q) : f.q[i].k \notin {"P", "N"} THEN Err
                      ELSE Tup([i \in 1..Len(f.q) |-> IF i \in P THEN x.q[Cardinality({j \in P : j <= i})] ELSE None])
\* groups: sequence of <<key, items>>
RECURSIVE Groups(_, _, _, _)
Groups(h, xs, ks, acc) ==
  IF xs = <<>> THEN acc
  ELSE LET key == ks[1]
           F == {i \in 1..Len(acc) : Eq(h, acc[i][1], key)}
       IN Groups(h, Tail(xs), Tail(ks),
            IF \E i \in 1..Len(key.q) : key.q[i].k = "N" THEN acc
            ELSE IF F = {} THEN Append(acc, <<key, <<Head(xs)>>>>)
            ELSE LET i == CHOOSE i \in F : TRUE IN [acc EXCEPT ![i] = <<acc[i][1], Append(acc[i][2], Head(xs))>>])
Sorted(h, g) == LET n == Len(g)
                    Before(i) == Cardinality({j \in 1..n : Cmp(h, g[j][1], g[i][1]) = "lt"})
                IN [p \in 1..n |-> g[CHOOSE i \in 1..n : Before(i) = p - 1]]
GroupBy(h, zs, sort) ==                               \* zs: <<x, key1, ...>> tuples of equal length
  IF \E i \in 1..Len(zs) : Len(zs[i].q) # Len(zs[1].q) THEN Err
  ELSE LET xs == zs[1].q
           ks == [j \in 1..Len(xs) |-> IF Len(zs) = 1 THEN Tup(<<xs[j]>>) ELSE Tup([i \in 1..Len(zs) - 1 |-> zs[i + 1].q[j]])]
           used == {j \in 1..Len(ks) : \A i \in 1..Len(ks[j].q) : ks[j].q[i].k # "N"}
           g == Groups(h, xs, ks, <<>>)
       IN IF \E j \in used : ~Hashable(h, ks[j]) THEN Err
          ELSE IF sort /\ \E i, j \in 1..Len(g) : i # j /\ Cmp(h, g[i][1], g[j][1]) = "err" THEN Err
          ELSE LET r == IF sort THEN Sorted(h, g) ELSE g IN Tup([i \in 1..Len(r) |-> Tup(r[i][2])])

\* What an operation makes of one tuple of corresponding items
Ord(h, op, a, b) == LET c == Cmp(h, a, b)
                    IN IF c = "err" THEN Err
                       ELSE Bool(CASE op = "lt" -> c = "lt" [] op = "le" -> c \in {"lt", "eq"}
                                   [] op = "gt" -> c = "gt" [] op = "ge" -> c \in {"gt", "eq"})
SkipsMissing == {"getitem", "getattr", "eq", "ne", "lt", "le", "gt", "ge", "and", "map", "groupby", "select", "invselect"}
Item(h, op, o, z) ==
  IF op \in SkipsMissing /\ \E i \in 1..Len(z) : z[i].k = "N" THEN None ELSE
  CASE op = "elems" -> Elems(h, z[1])
    [] op = "range" -> Range(h, z[1], o.lo, o.hi)
    [] op = "getitem" -> GetItem(h, z[1], z[2])
    [] op = "getattr" -> GetAttr(h, z[1], o.name, o.hasdef, o.def)
    [] op = "first" -> z[1]
    [] op = "eq" -> Bool(Eq(h, z[1], z[2]))
    [] op = "ne" -> Bool(~Eq(h, z[1], z[2]))
    [] op \in {"lt", "le", "gt", "ge"} -> Ord(h, op, z[1], z[2])
    [] op = "and" -> IF z[2].k = "P" THEN z[1] ELSE Err
    [] op = "or" -> IF z[1].k = "N" THEN z[2] ELSE z[1]
    [] op \in {"map", "mapall"} -> Tup(<<Str("f", 99)>> \o [i \in 1..Len(z) |->
                  IF i > Len(z) - Len(o.kw) THEN Tup(<<Str(o.kw[i - Len(z) + Len(o.kw)], 99), z[i]>>) ELSE z[i]])
    [] op = "collapse" -> Collapse(h, z[1].q)
    [] op = "select" -> Select(z[1], z[2])
    [] op = "selconst" -> IF z[2].k = "P" THEN z[1] ELSE IF z[2].k = "N" THEN Tup(<<>>) ELSE Err
    [] op = "invselect" -> InvSelect(z[1], z[2])
    [] op = "groupby" -> GroupBy(h, z, o.sort)
RECURSIVE Apply(_, _, _, _, _)
Apply(h, op, o, t, d) == IF t.k = "E" THEN Err
                         ELSE IF d = 0 THEN Item(h, op, o, t.q)
                         ELSE Tup([i \in 1..Len(t.q) |-> Apply(h, op, o, t.q[i], d - 1)])
Map(h, op, o, vs) == LET d == Depth(vs)
                         t == Apply(h, op, o, ZipV(vs), d)
                     IN IF Broken(t, d) THEN Bad ELSE View(d, t)
Deeper(v, n) == IF v.d < 0 THEN Bad ELSE View(v.d + n, v.t)
Implode(v, n) == IF n < 0 THEN View(0, v.t) ELSE IF n <= v.d THEN View(v.d - n, v.t) ELSE Bad
RECURSIVE Explode(_, _, _, _)
Explode(h, o, v, n) == IF v.d < 0 \/ n = 0 THEN v ELSE Explode(h, o, Deeper(Map(h, "elems", o, <<v>>), 1), n - 1)
RECURSIVE FlatAt(_, _, _)                             \* at depth f, join k levels into one
FlatAt(t, f, k) == IF f = 0 THEN Tup(Leaves(t, k)) ELSE Tup([i \in 1..Len(t.q) |-> FlatAt(t.q[i], f - 1, k)])
Flatten(v, from, to) ==
  LET Fix(x, lo) == LET y == IF x < 0 THEN x + v.d ELSE x
                        z == IF y > v.d THEN v.d ELSE y
                    IN IF z < lo THEN lo ELSE z
      f == Fix(from, 0)
      e == Fix(to, f)
  IN View(v.d - (e - f) + 1, FlatAt(v.t, f, e - f))
ExpandTo(h, o, v, w, n) ==
  IF n < 0 THEN Bad
  ELSE LET r == Implode(v, n)
       IN IF r.d < 0 \/ r.d > w.d THEN Bad ELSE Deeper(Map(h, "first", o, <<r, w>>), n)
Align(h, o, vs) == LET w == vs[CHOOSE i \in 1..Len(vs) : vs[i].d = Depth(vs) /\ \A j \in 1..i - 1 : vs[j].d < Depth(vs)]
                   IN [i \in 1..Len(vs) |-> ExpandTo(h, o, vs[i], w, 0)]

\* --- operations that return views; o.args are the argument views (the first is self)
Result(h, o, a) ==
  CASE o.op = "view" -> View(0, a[1].t)
    [] o.op = "explode" -> IF o.n < 0 THEN Bad ELSE Explode(h, o, a[1], o.n)
    [] o.op = "implode" -> Implode(a[1], o.n)
    [] o.op = "slice" -> Deeper(Map(h, "range", o, <<a[1]>>), 1)
    [] o.op \in {"getitem", "eq", "ne", "lt", "le", "gt", "ge", "and", "or"} -> Map(h, o.op, o, a)
    [] o.op = "take" -> IF a[1].d = 0 THEN Bad ELSE Map(h, "getitem", o, <<Implode(a[1], 1), a[2]>>)
    [] o.op = "getattr" -> Map(h, "getattr", o, a)
    [] o.op = "flatten" -> Flatten(a[1], o.from, IF o.toend THEN a[1].d ELSE o.to)
    [] o.op = "expandto" -> ExpandTo(h, o, a[1], a[2], o.n)
    [] o.op = "collapse" -> IF o.n < 0 \/ o.n > a[1].d THEN Bad
                            ELSE Map(h, "collapse", o, <<Implode(Flatten(a[1], a[1].d - o.n, a[1].d), 1)>>)
    [] o.op = "groupby" -> IF a[1].d = 0 \/ \E i \in 1..Len(a) : a[i].d # a[1].d THEN Bad
                           ELSE Deeper(Map(h, "groupby", o, [i \in 1..Len(a) |-> Implode(a[i], 1)]), 2)
    [] o.op = "select" ->
         LET dim == IF o.expand THEN a[1].d - 1 ELSE a[2].d - 1
         IN IF a[2].d > a[1].d \/ dim < 0 THEN Bad
            ELSE LET x == Implode(a[1], a[1].d - dim)
                     r == IF a[2].d > dim THEN Map(h, "select", o, <<x, Implode(a[2], 1)>>) ELSE Map(h, "selconst", o, <<x, a[2]>>)
                 IN IF r.d < 0 THEN Bad ELSE View(a[1].d, r.t)
    [] o.op = "invselect" -> IF a[1].d = 0 \/ a[2].d # a[1].d THEN Bad
                             ELSE Deeper(Map(h, "invselect", o, <<Implode(a[1], 1), Implode(a[2], 1)>>), 1)
    [] o.op = "map" ->
         IF o.n = 0 THEN Map(h, IF o.inc = "yes" THEN "mapall" ELSE "map", o, a)
         ELSE IF o.n < 0 \/ o.inc = "no" THEN Bad
         ELSE LET al == Align(h, o, a)
              IN IF (\E i \in 1..Len(al) : al[i].d < 0) \/ o.n > Depth(a) THEN Bad
                 ELSE Map(h, "mapall", o, [i \in 1..Len(al) |-> Implode(al[i], o.n)])

\* --- operations that write to the objects in a view, item by item in order
SetAttr(h, x, a, w) == IF KindOf(h, x) # "obj" THEN Err
                       ELSE [h EXCEPT ![x.v].m = Put(h, @, Str(a, 99), w)]
WriteItem(h, op, o, z) ==                             \* the new heap, or Err
  CASE z[1].k = "N" -> h
    [] op = "setattr" -> SetAttr(h, z[1], o.name, z[2])
    [] op = "append" -> IF KindOf(h, z[1]) = "list" THEN [h EXCEPT ![z[1].v].q = Append(@, z[2])] ELSE Err
    [] op = "setitem" ->
         IF z[2].k = "N" THEN h
         ELSE CASE KindOf(h, z[1]) = "list" ->
                     IF z[2].k # "I" THEN Err
                     ELSE LET L == Len(h[z[1].v].q)
                              i == Norm(z[2].n, L)
                          IN IF i < 0 \/ i >= L THEN h ELSE [h EXCEPT ![z[1].v].q[i + 1] = z[3]]
                [] KindOf(h, z[1]) = "dict" -> IF Hashable(h, z[2]) THEN [h EXCEPT ![z[1].v].m = Put(h, @, z[2], z[3])] ELSE Err
                [] OTHER -> Err
RECURSIVE Fold(_, _, _, _)
Fold(h, op, o, zs) == IF zs = <<>> THEN [ok |-> TRUE, h |-> h]
                      ELSE IF WriteItem(h, op, o, Head(zs).q) = Err THEN [ok |-> FALSE, h |-> h]
                      ELSE Fold(WriteItem(h, op, o, Head(zs).q), op, o, Tail(zs))
Write(h, o, a) ==
  LET z == ZipV(a)
      d == Depth(a)
      deep == CASE o.op = "setattr" -> a[2].d > a[1].d
                [] o.op = "setitem" -> a[3].d > a[1].d /\ a[3].d > a[2].d
                [] OTHER -> FALSE
  IN IF deep THEN [ok |-> FALSE, h |-> h, kept |-> TRUE]
     ELSE IF Broken(z, d) THEN [ok |-> FALSE, h |-> h, kept |-> FALSE]
     ELSE [kept |-> FALSE] @@ Fold(h, o.op, o, Leaves(z, d))
RECURSIVE WriteAttrs(_, _, _, _)                      \* several attributes, one after the other
WriteAttrs(h, o, a, i) ==
  IF i > Len(o.kw) THEN [ok |-> TRUE, h |-> h, kept |-> FALSE]
  ELSE LET w == Write(h, [op |-> "setattr", name |-> o.kw[i]], <<a[1], a[i + 1]>>)
       IN IF w.ok THEN WriteAttrs(w.h, o, a, i + 1) ELSE [w EXCEPT !.kept = FALSE]

\* --- deep structure: contents of containers written out ("L", "D" nodes)
RECURSIVE Unfold(_, _)
Unfold(h, x) ==
  CASE x.k = "T" -> Tup([i \in 1..Len(x.q) |-> Unfold(h, x.q[i])])
    [] KindOf(h, x) = "list" -> V("L", 0, "", [i \in 1..Len(h[x.v].q) |-> Unfold(h, h[x.v].q[i])])
    [] KindOf(h, x) = "dict" -> V("D", 0, "", [i \in 1..Len(h[x.v].m) |->
                                   Tup(<<Unfold(h, h[x.v].m[i][1]), Unfold(h, h[x.v].m[i][2])>>)])
    [] OTHER -> x
RECURSIVE SameU(_, _)
SameU(a, b) == /\ a.k = b.k /\ a.n = b.n /\ a.v = b.v /\ Len(a.q) = Len(b.q)
               /\ IF a.k = "D" THEN \A i \in 1..Len(a.q) : \E j \in 1..Len(b.q) : SameU(a.q[i], b.q[j])
                  ELSE \A i \in 1..Len(a.q) : SameU(a.q[i], b.q[i])
RECURSIVE DeepMap(_, _)                               \* on unfolded values, structure of the first
DeepMap(o, us) ==
  LET x == us[1]
  IN IF x.k \in {"T", "L"}
     THEN IF \E i \in 1..Len(us) : us[i].k # x.k \/ Len(us[i].q) # Len(x.q) THEN Err
          ELSE V(x.k, 0, "", [j \in 1..Len(x.q) |-> DeepMap(o, [i \in 1..Len(us) |-> us[i].q[j]])])
     ELSE IF x.k = "D"
     THEN IF \E i \in 1..Len(us) : us[i].k # "D" \/ Len(us[i].q) # Len(x.q) \/
                 \E j \in 1..Len(x.q) : \A m \in 1..Len(us[i].q) : us[i].q[m].q[1] # x.q[j].q[1] THEN Err
          ELSE V("D", 0, "", [j \in 1..Len(x.q) |-> Tup(<<x.q[j].q[1], DeepMap(o, [i \in 1..Len(us) |->
                   us[i].q[CHOOSE m \in 1..Len(us[i].q) : us[i].q[m].q[1] = x.q[j].q[1]].q[2]])>>)])
     ELSE IF ~o.all /\ \E i \in 1..Len(us) : us[i].k = "N" THEN None
     ELSE Tup(<<Str("f", 99)>> \o us)
RECURSIVE AnyErr(_)
AnyErr(x) == x.k = "E" \/ \E i \in 1..Len(x.q) : AnyErr(x.q[i])
RECURSIVE ApplyDeep(_, _, _, _)
ApplyDeep(h, o, t, d) == IF t.k = "E" THEN Err
                         ELSE IF d = 0 THEN DeepMap(o, [i \in 1..Len(t.q) |-> Unfold(h, t.q[i])])
                         ELSE Tup([i \in 1..Len(t.q) |-> ApplyDeep(h, o, t.q[i], d - 1)])
DeepResult(h, o, a) == ApplyDeep(h, o, ZipV(a), Depth(a))

\* --- deep copies: a bijection between the old and the new objects
Refs(x) == LET RECURSIVE R(_)
               R(y) == IF y.k = "R" THEN {y.v} ELSE UNION {R(y.q[i]) : i \in 1..Len(y.q)}
           IN R(x)
Kids(ob) == ob.q \o Flat([i \in 1..Len(ob.m) |-> <<ob.m[i][1], ob.m[i][2]>>])
RECURSIVE Reach(_, _)
Reach(h, R) == LET N == R \cup UNION {UNION {Refs(c) : c \in Set(Kids(h[r]))} : r \in R} IN IF N = R THEN R ELSE Reach(h, N)
RECURSIVE Match(_, _)                                 \* pairs of references, or {"no"} if the shapes differ
Match(x, y) == IF x.k # y.k \/ x.n # y.n \/ Len(x.q) # Len(y.q) \/ (x.k # "R" /\ x.v # y.v) THEN {<<"", "">>}
               ELSE IF x.k = "R" THEN {<<x.v, y.v>>}
               ELSE UNION {Match(x.q[i], y.q[i]) : i \in 1..Len(x.q)}
RECURSIVE Pairs(_, _, _)
Pairs(h, h2, P) ==
  IF <<"", "">> \in P THEN P
  ELSE LET N == P \cup UNION {IF h[p[1]].k # h2[p[2]].k THEN {<<"", "">>}
                              ELSE Match(Tup(Kids(h[p[1]])), Tup(Kids(h2[p[2]]))) : p \in P}
       IN IF N = P THEN P ELSE Pairs(h, h2, N)
IsCopy(h, x, h2, y) == LET P == Pairs(h, h2, Match(x, y))
                       IN /\ <<"", "">> \notin P
                          /\ \A p, q \in P : (p[1] = q[1]) <=> (p[2] = q[2])
                          /\ \A p \in P : p[2] \notin DOMAIN h
===============================================================================
