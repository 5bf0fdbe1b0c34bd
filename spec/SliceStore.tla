------------------------------ MODULE SliceStore ------------------------------
(* Persistent, versioned data slices (DataSliceManager).                        *)
(*                                                                              *)
(* Data is a heap of three kinds of facts: entity cells, lists and dicts; all   *)
(* values are tokens (strings; "" = missing).  A schema is a set of triples     *)
(* <<entity node, attribute, node>>; list, dict and primitive nodes are fixed   *)
(* (u).  A directory holds a sequence of revisions, each with the heap and      *)
(* schema right after it.  A manager sees a directory up to revision k; only a  *)
(* writable manager that sees the latest revision can append one.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Set(q) == {q[i] : i \in 1..Len(q)}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Flat(Tail(qs))

EmptyHeap == [c |-> <<>>, l |-> <<>>, d |-> <<>>]
Cell(h, e, a) == IF e \in DOMAIN h.c THEN IF a \in DOMAIN h.c[e] THEN h.c[e][a] ELSE "" ELSE ""
ListOf(h, x) == IF x \in DOMAIN h.l THEN h.l[x] ELSE <<>>
DictOf(h, x) == IF x \in DOMAIN h.d THEN h.d[x] ELSE <<>>
PutCell(h, e, a, v) == [h EXCEPT !.c = Put(@, e, Put(IF e \in DOMAIN @ THEN @[e] ELSE <<>>, a, v))]
PutKey(h, x, k, v) == [h EXCEPT !.d = Put(@, x, Put(IF x \in DOMAIN @ THEN @[x] ELSE <<>>, k, v))]

\* f: [c |-> << [e, a, v] >>, l |-> << [n, v] >>, d |-> << [n, k, v] >>]: the facts of an update
RECURSIVE AddC(_, _, _, _), AddL(_, _, _, _), AddD(_, _, _, _)
AddC(h, q, R, i) == IF i > Len(q) THEN h ELSE AddC(IF q[i].e \in R THEN PutCell(h, q[i].e, q[i].a, q[i].v) ELSE h, q, R, i + 1)
AddL(h, q, R, i) == IF i > Len(q) THEN h ELSE AddL(IF q[i].n \in R THEN [h EXCEPT !.l = Put(@, q[i].n, q[i].v)] ELSE h, q, R, i + 1)
AddD(h, q, R, i) == IF i > Len(q) THEN h ELSE AddD(IF q[i].n \in R THEN PutKey(h, q[i].n, q[i].k, q[i].v) ELSE h, q, R, i + 1)
Overlay(h, f, R) == AddD(AddL(AddC(h, f.c, R, 1), f.l, R, 1), f.d, R, 1)
RECURSIVE Reach(_, _)                                  \* tokens reachable through facts f
Reach(f, R) ==
  LET N == R \cup {q.v : q \in {x \in Set(f.c) : x.e \in R}}
             \cup UNION {Set(q.v) : q \in {x \in Set(f.l) : x.n \in R}}
             \cup UNION {{q.k, q.v} : q \in {x \in Set(f.d) : x.n \in R}}
  IN IF N = R THEN R ELSE Reach(f, N)

\* --- schemas
Kind(u, n) == IF n \in DOMAIN u THEN u[n].k ELSE ""
Child(u, sch, n, a) ==                                  \* the node one step below, "" if there is none
  CASE a.a = "attr" -> IF Kind(u, n) = "ent" /\ \E t \in sch : t[1] = n /\ t[2] = a.n
                       THEN (CHOOSE t \in sch : t[1] = n /\ t[2] = a.n)[3] ELSE ""
    [] a.a = "explode" -> IF Kind(u, n) = "list" THEN u[n].e[1] ELSE ""
    [] a.a = "keys" -> IF Kind(u, n) = "dict" THEN u[n].e[1] ELSE ""
    [] a.a = "values" -> IF Kind(u, n) = "dict" THEN u[n].e[2] ELSE ""
RECURSIVE NodeAt(_, _, _, _)
NodeAt(u, sch, n, p) == IF p = <<>> \/ n = "" THEN n ELSE NodeAt(u, sch, Child(u, sch, n, Head(p)), Tail(p))
Steps(u, sch, n) ==
  CASE Kind(u, n) = "ent" -> {[a |-> "attr", n |-> t[2]] : t \in {x \in sch : x[1] = n}}
    [] Kind(u, n) = "list" -> {[a |-> "explode", n |-> ""]}
    [] Kind(u, n) = "dict" -> {[a |-> "keys", n |-> ""], [a |-> "values", n |-> ""]}
    [] OTHER -> {}
RECURSIVE Paths(_, _, _, _)                             \* all paths from n of at most k steps
Paths(u, sch, n, k) == {<<>>} \cup (IF k = 0 THEN {} ELSE
   UNION {{<<a>> \o q : q \in Paths(u, sch, Child(u, sch, n, a), k - 1)} : a \in Steps(u, sch, n)})
RECURSIVE ReachNodes(_, _, _)
ReachNodes(u, sch, N) == LET M == N \cup {Child(u, sch, n, a) : <<n, a>> \in UNION {{<<n, a>> : a \in Steps(u, sch, n)} : n \in N}}
                         IN IF M = N THEN N ELSE ReachNodes(u, sch, M)
Triples(u, sch) == {t \in sch : t[1] \in ReachNodes(u, sch, {"root"})}

\* --- data along paths
StepOn(h, x, a) ==
  CASE a.a = "attr" -> <<IF x = "" THEN "" ELSE Cell(h, x, a.n)>>
    [] a.a = "explode" -> ListOf(h, x)
    [] a.a = "keys" -> LET D == DictOf(h, x) IN
         LET RECURSIVE Q(_)
             Q(K) == IF K = {} THEN <<>> ELSE LET k == CHOOSE k \in K : TRUE IN <<k>> \o Q(K \ {k})
         IN Q(DOMAIN D)
    [] a.a = "values" -> LET D == DictOf(h, x) IN
         LET RECURSIVE Q(_)
             Q(K) == IF K = {} THEN <<>> ELSE LET k == CHOOSE k \in K : TRUE IN <<D[k]>> \o Q(K \ {k})
         IN Q(DOMAIN D)
RECURSIVE EvalFrom(_, _, _)
EvalFrom(h, q, p) == IF p = <<>> THEN q
                     ELSE EvalFrom(h, Flat([i \in 1..Len(q) |-> StepOn(h, q[i], Head(p))]), Tail(p))
Eval(h, p) == EvalFrom(h, <<"root">>, p)                \* the flattened slice at a path
Present(q) == Set(q) \ {""}
\* The facts one meets when following p from the tokens X
NoFacts == [c |-> {}, l |-> {}, k |-> {}, v |-> {}]
Join(A, B) == [c |-> A.c \cup B.c, l |-> A.l \cup B.l, k |-> A.k \cup B.k, v |-> A.v \cup B.v]
RECURSIVE Along(_, _, _)
Along(h, X, p) ==
  IF p = <<>> THEN NoFacts ELSE
  LET a == Head(p)
      N == Present(Flat(LET RECURSIVE Q(_)
                            Q(K) == IF K = {} THEN <<>> ELSE LET k == CHOOSE k \in K : TRUE IN <<StepOn(h, k, a)>> \o Q(K \ {k})
                        IN Q(X)))
      F == CASE a.a = "attr" -> [NoFacts EXCEPT !.c = {<<x, a.n, Cell(h, x, a.n)>> : x \in X}]
             [] a.a = "explode" -> [NoFacts EXCEPT !.l = {<<x, ListOf(h, x)>> : x \in X}]
             [] a.a = "keys" -> [NoFacts EXCEPT !.k = {<<x, DOMAIN DictOf(h, x)>> : x \in X}]
             [] a.a = "values" -> [NoFacts EXCEPT !.v = {<<x, {DictOf(h, x)[k] : k \in DOMAIN DictOf(h, x)}>> : x \in X}]
  IN Join(F, Along(h, N, Tail(p)))
RECURSIVE JoinAll(_)
JoinAll(S) == IF S = {} THEN NoFacts ELSE LET x == CHOOSE x \in S : TRUE IN Join(x, JoinAll(S \ {x}))

\* --- directories and managers
NoDir == [st |-> "none", revs |-> <<>>]
Fresh(st) == [NoDir EXCEPT !.st = st]
DirOf(s, d) == IF d \in DOMAIN s.dirs THEN s.dirs[d] ELSE NoDir
Virgin(x) == x.st \in {"none", "empty"}
S0(u) == [dirs |-> <<>>, mgrs |-> <<>>, u |-> u]
Rev(kind, desc, path, attr, pidx, pdir, heap, sch) ==
  [kind |-> kind, desc |-> desc, path |-> path, attr |-> attr, pidx |-> pidx, pdir |-> pdir, heap |-> heap, sch |-> sch]
Cur(s, h) == s.dirs[s.mgrs[h].d].revs[s.mgrs[h].k]     \* what manager h sees
Latest(s, h) == s.mgrs[h].k = Len(s.dirs[s.mgrs[h].d].revs)
Hist(s, h) == [i \in 1..s.mgrs[h].k |-> LET r == s.dirs[s.mgrs[h].d].revs[i] IN
                 [kind |-> r.kind, desc |-> r.desc, path |-> r.path, attr |-> r.attr, pidx |-> r.pidx, pdir |-> r.pdir]]

Writes == {"create", "update", "branch"}
\* After a write that stopped half-way, managers opened before it may no longer
\* be able to write (a fresh one always is).
Poison(s, d) == [s EXCEPT !.mgrs = [h \in DOMAIN @ |-> IF @[h].d = d THEN [@[h] EXCEPT !.p = TRUE] ELSE @[h]]]

\* The revision an update makes
Updated(s, o) ==
  LET v == Cur(s, o.h)
      T == Present(Eval(v.heap, o.path))
      Val(e) == IF o.const # "" THEN o.const
                ELSE IF \E x \in Set(o.vals) : x.e = e THEN (CHOOSE x \in Set(o.vals) : x.e = e).v ELSE ""
      R == Reach(o.f, {Val(e) : e \in T} \ {""})
      h1 == Overlay(v.heap, o.f, R)
      h2 == [h1 EXCEPT !.c = [e \in DOMAIN @ \cup T |->
                IF e \in T THEN Put(IF e \in DOMAIN @ THEN @[e] ELSE <<>>, o.attr, Val(e)) ELSE @[e]]]
      n == NodeAt(s.u, v.sch, "root", o.path)
      sch == {t \in v.sch : ~(t[1] = n /\ t[2] = o.attr)} \cup {<<n, o.attr, o.vt>>}
             \cup {<<t[1], t[2], t[3]>> : t \in Set(o.decl)}
  IN Rev("update", o.desc, o.ptext, o.attr, -1, "", h2, sch)
BadUpdate(s, o) == \/ o.bad
                   \/ s.mgrs[o.h].ro
                   \/ Kind(s.u, NodeAt(s.u, Cur(s, o.h).sch, "root", o.path)) # "ent"
Index(s, o) == IF o.idx < 0 THEN s.mgrs[o.h].k + o.idx + 1 ELSE o.idx + 1     \* 1-based
BadBranch(s, o) == Index(s, o) < 1 \/ Index(s, o) > s.mgrs[o.h].k \/ ~Virgin(DirOf(s, o.dir))
NewMgr(d, k, ro) == [d |-> d, k |-> k, ro |-> ro, p |-> FALSE]

\* What a successful or refused write does: [s, r]
Do(s, o) ==
  CASE o.op = "create" ->
         IF ~Virgin(DirOf(s, o.dir)) THEN [s |-> s, r |-> "err"]
         ELSE [s |-> [s EXCEPT !.dirs = Put(@, o.dir, [st |-> "ok", revs |-> <<Rev("creation", o.desc, "", "", -1, "", EmptyHeap, {})>>]),
                               !.mgrs = Put(@, o.h, NewMgr(o.dir, 1, FALSE))], r |-> "ok"]
    [] o.op = "open" ->
         LET x == DirOf(s, o.dir)
             k == IF o.idx = -1 THEN Len(x.revs) ELSE o.idx + 1
         IN IF x.st # "ok" \/ k < 1 \/ k > Len(x.revs) THEN [s |-> s, r |-> "err"]
            ELSE [s |-> [s EXCEPT !.mgrs = Put(@, o.h, NewMgr(o.dir, k, o.ro))], r |-> "ok"]
    [] o.op = "rocopy" -> [s |-> [s EXCEPT !.mgrs = Put(@, o.h2, NewMgr(s.mgrs[o.h].d, s.mgrs[o.h].k, TRUE))], r |-> "ok"]
    [] o.op = "setro" -> [s |-> [s EXCEPT !.mgrs[o.h].ro = TRUE], r |-> "ok"]
    [] o.op = "cache" -> [s |-> s, r |-> "ok"]
    [] o.op = "update" ->
         IF BadUpdate(s, o) THEN [s |-> s, r |-> "err"]
         ELSE IF ~Latest(s, o.h) THEN [s |-> Poison(s, s.mgrs[o.h].d), r |-> "err"]
         ELSE LET d == s.mgrs[o.h].d IN
              [s |-> [s EXCEPT !.dirs[d].revs = Append(@, Updated(s, o)), !.mgrs[o.h].k = @ + 1], r |-> "ok"]
    [] o.op = "branch" ->
         IF BadBranch(s, o) THEN [s |-> s, r |-> "err"]
         ELSE LET b == s.dirs[s.mgrs[o.h].d].revs[Index(s, o)] IN
              [s |-> [s EXCEPT !.dirs = Put(@, o.dir, [st |-> "ok", revs |->
                                <<Rev("branch", o.desc, "", "", Index(s, o) - 1, s.mgrs[o.h].d, b.heap, b.sch)>>]),
                               !.mgrs = Put(@, o.h2, NewMgr(o.dir, 1, FALSE))], r |-> "ok"]

\* Besides Do, a write through a poisoned manager may be refused
Step(s, o) == {Do(s, o)} \cup
   (IF o.op = "update" /\ ~BadUpdate(s, o) /\ s.mgrs[o.h].p
    THEN {[s |-> Poison(s, s.mgrs[o.h].d), r |-> "err"]} ELSE {})

\* A file-system failure in the middle of an operation
Remains(x) == IF Virgin(x) THEN {x, Fresh("empty"), Fresh("dirty")} ELSE {x}
Faulted(s, o) ==
  LET d == Do(s, o).s IN
  CASE o.op \in {"create", "branch"} ->
         {[s EXCEPT !.dirs = Put(@, o.dir, x)] : x \in Remains(DirOf(s, o.dir)) \cup {DirOf(d, o.dir)}}
    [] o.op = "update" -> LET m == s.mgrs[o.h] IN
         {Poison(s, m.d), Poison([d EXCEPT !.mgrs = s.mgrs], m.d)}
    [] OTHER -> {s}

\* --- reads
Refused(s, o) == LET v == Cur(s, o.h) IN
  CASE o.op = "get" -> \E p \in Set(o.pop) \cup Set(o.dpop) : NodeAt(s.u, v.sch, "root", p) = ""
    [] o.op = "at" -> NodeAt(s.u, v.sch, "root", o.path) = ""
    [] OTHER -> FALSE
Below(s, v, p, k) == {p \o q : q \in Paths(s.u, v.sch, NodeAt(s.u, v.sch, "root", p), k)}
Value(s, o) == LET v == Cur(s, o.h) IN
  CASE o.op = "get" -> JoinAll({Along(v.heap, {"root"}, p) : p \in Set(o.pop) \cup UNION {Below(s, v, q, o.depth) : q \in Set(o.dpop)}})
    [] o.op = "at" -> [q |-> Eval(v.heap, o.path),
                       f |-> IF o.flag THEN JoinAll({Along(v.heap, Present(Eval(v.heap, o.path)), p) :
                                  p \in Paths(s.u, v.sch, NodeAt(s.u, v.sch, "root", o.path), o.depth)})
                             ELSE NoFacts]
    [] o.op = "exists" -> NodeAt(s.u, v.sch, "root", o.path) # ""
    [] o.op = "paths" -> Paths(s.u, v.sch, "root", o.depth)
    [] o.op = "schema" -> Triples(s.u, v.sch)
    [] o.op = "history" -> Hist(s, o.h)

\* --- properties of the design
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
WellFormed(s) == \A h \in DOMAIN s.mgrs : LET m == s.mgrs[h] IN s.dirs[m.d].st = "ok" /\ m.k \in 1..Len(s.dirs[m.d].revs)
\* revisions are never lost or changed, whatever fails
Durable(s, s2) == \A d \in DOMAIN s.dirs : s.dirs[d].st = "ok" =>
                    s2.dirs[d].st = "ok" /\ IsPrefix(s.dirs[d].revs, s2.dirs[d].revs)
\* an operation leaves what other managers see as it was
Isolated(s, s2, o) == \A h \in DOMAIN s.mgrs :
   (h # o.h /\ h # o.h2) => Cur(s, h) = Cur(s2, h) /\ s2.mgrs[h].k = s.mgrs[h].k
===============================================================================
