------------------------------- MODULE BagStore -------------------------------
(* Persistence directories of named small bags (DataBagManager).                *)
(*                                                                              *)
(* A directory is uninitialised ("none": does not exist, "empty", "dirty": has  *)
(* files but nothing committed) or "ok" at revision k with its committed bags,  *)
(* in the order in which they were added.  A manager is a snapshot of one       *)
(* directory at one revision; only a manager at the directory's latest          *)
(* revision can commit, and it commits all bags of one call or none.            *)
(* A bag is [n: name, d: names it depends on, c: <<[k, v], ...>> cell           *)
(* assignments, m: custom metadata ("" = none)].                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Set(q) == {q[i] : i \in 1..Len(q)}
Names(bags) == {bags[i].n : i \in 1..Len(bags)}
Bag(bags, n) == bags[CHOOSE i \in 1..Len(bags) : bags[i].n = n]

RECURSIVE Down(_, _)
Down(bags, N) == LET M == N \cup UNION {Set(Bag(bags, n).d) : n \in N}
                 IN IF M = N THEN N ELSE Down(bags, M)
RECURSIVE Up(_, _)
Up(bags, N) == LET M == N \cup {b \in Names(bags) : Set(Bag(bags, b).d) \cap N # {}}
               IN IF M = N THEN N ELSE Up(bags, M)
Closure(bags, N, wad) == Down(bags, IF wad THEN Up(bags, N) ELSE N)

Part(bags, N) == SelectSeq(bags, LAMBDA b : b.n \in N)      \* in add order
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE Cells(_, _, _)                                    \* later assignments win
Cells(f, c, i) == IF i > Len(c) THEN f ELSE Cells(Put(f, c[i].k, c[i].v), c, i + 1)
RECURSIVE MergeFrom(_, _, _)
MergeFrom(f, bags, i) == IF i > Len(bags) THEN f ELSE MergeFrom(Cells(f, bags[i].c, 1), bags, i + 1)
Graph(f) == {<<k, f[k]>> : k \in DOMAIN f}
Content(b) == Graph(Cells(<<>>, b.c, 1))
Merged(bags) == Graph(MergeFrom(<<>>, bags, 1))

\* May the bags `new` be added, in this order, to `bags`?
RECURSIVE Addable(_, _, _)
Addable(N, new, i) == \/ i > Len(new)
                      \/ /\ new[i].n \notin N
                         /\ Set(new[i].d) \subseteq N
                         /\ Addable(N \cup {new[i].n}, new, i + 1)

NoDir == [st |-> "none", k |-> 0, bags |-> <<>>]
Fresh(st) == [NoDir EXCEPT !.st = st]
DirOf(s, d) == IF d \in DOMAIN s.dirs THEN s.dirs[d] ELSE NoDir
Virgin(x) == x.st \in {"none", "empty"}
S0 == [dirs |-> <<>>, mgrs |-> <<>>]

\* The possible uninitialised remains of a failed attempt to populate x
Remains(x) == IF Virgin(x) THEN {x, Fresh("empty"), Fresh("dirty")} ELSE {x}

\* Reads of names the manager does not have are refused
Refused(s, o) == o.op \in {"meta", "load", "minimal"} /\ ~(Set(o.names) \subseteq Names(s.mgrs[o.h].bags))

\* What a successful or refused operation does: [s, r]; reads leave s as it is.
Do(s, o) ==
  LET m == s.mgrs[o.h]
      KnownNames == Set(o.names) \subseteq Names(m.bags)
      C == Closure(m.bags, Set(o.names), o.wad)
      Out(bags) == \* populate o.dir with bags
         IF ~KnownNames \/ ~Virgin(DirOf(s, o.dir)) THEN [s |-> s, r |-> "err"]
         ELSE [s |-> [s EXCEPT !.dirs = Put(@, o.dir, [st |-> "ok", k |-> 0, bags |-> bags])], r |-> "ok"]
  IN CASE o.op = "create" ->
            IF ~Virgin(DirOf(s, o.dir)) THEN [s |-> s, r |-> "err"]
            ELSE [s |-> [dirs |-> Put(s.dirs, o.dir, Fresh("ok")),
                         mgrs |-> Put(s.mgrs, o.h, [d |-> o.dir, k |-> 0, bags |-> <<>>])], r |-> "ok"]
     [] o.op = "open" ->
            LET x == DirOf(s, o.dir) IN
            IF x.st # "ok" THEN [s |-> s, r |-> "err"]
            ELSE [s |-> [s EXCEPT !.mgrs = Put(@, o.h, [d |-> o.dir, k |-> x.k, bags |-> x.bags])], r |-> "ok"]
     [] o.op = "add" ->
            LET x == DirOf(s, m.d)
                nb == m.bags \o o.new
            IN IF ~Addable(Names(m.bags), o.new, 1) \/ x.k # m.k THEN [s |-> s, r |-> "err"]
               ELSE [s |-> [dirs |-> Put(s.dirs, m.d, [st |-> "ok", k |-> m.k + 1, bags |-> nb]),
                            mgrs |-> Put(s.mgrs, o.h, [m EXCEPT !.k = @ + 1, !.bags = nb])], r |-> "ok"]
     [] o.op = "names" -> [s |-> s, r |-> Names(m.bags)]
     [] o.op = "meta" -> [s |-> s, r |-> IF KnownNames THEN {<<n, Bag(m.bags, n).m>> : n \in Set(o.names)} ELSE {}]
     [] o.op = "load" -> [s |-> s, r |-> IF KnownNames THEN {<<n, Content(Bag(m.bags, n))>> : n \in C} ELSE {}]
     [] o.op = "minimal" -> [s |-> s, r |-> IF KnownNames THEN Merged(Part(m.bags, C)) ELSE {}]
     [] o.op = "sort" -> [s |-> s, r |-> [i \in 1..Len(Part(m.bags, Set(o.names))) |-> Part(m.bags, Set(o.names))[i].n]]
     [] o.op = "branch" -> Out(Part(m.bags, C))
     [] o.op = "extract" ->
            LET d == Out(Part(m.bags, C))
            IN IF d.r = "ok" THEN [d EXCEPT !.s.dirs[o.dir].k = 1] ELSE d
     [] o.op = "cache" -> [s |-> s, r |-> "ok"]          \* clearing, disabling, resizing: no effect

\* A file-system failure in the middle of an operation: the directory ends up
\* as if the operation had not happened or had completely happened; existing
\* managers keep what they see.
Faulted(s, o) ==
  LET d == Do(s, o).s IN
  CASE o.op = "create" -> {[s EXCEPT !.dirs = Put(@, o.dir, x)] : x \in Remains(DirOf(s, o.dir)) \cup {DirOf(d, o.dir)}}
    [] o.op = "add" -> {s, [d EXCEPT !.mgrs = s.mgrs]}
    \* extract is create + add on the target: it may also stop in between
    [] o.op = "extract" -> {[s EXCEPT !.dirs = Put(@, o.dir, x)] :
           x \in Remains(DirOf(s, o.dir)) \cup {DirOf(d, o.dir)}
                 \cup (IF Virgin(DirOf(s, o.dir)) THEN {Fresh("ok")} ELSE {})}
    [] o.op = "branch" -> {[s EXCEPT !.dirs = Put(@, o.dir, x)] : x \in Remains(DirOf(s, o.dir)) \cup {DirOf(d, o.dir)}}
    [] OTHER -> {s}

\* Properties of the design
Closed(bags) == \A i \in 1..Len(bags) : Set(bags[i].d) \subseteq {bags[j].n : j \in 1..i - 1}
Distinct(bags) == Cardinality(Names(bags)) = Len(bags)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
WellFormed(s) == /\ \A d \in DOMAIN s.dirs : Closed(s.dirs[d].bags) /\ Distinct(s.dirs[d].bags)
                 /\ \A h \in DOMAIN s.mgrs : LET m == s.mgrs[h]  x == s.dirs[m.d] IN
                       /\ x.st = "ok" /\ m.k <= x.k /\ IsPrefix(m.bags, x.bags)
                       /\ (m.k = x.k) => m.bags = x.bags
\* committed data is never lost, changed or reordered, whatever fails
Durable(s, s2) == \A d \in DOMAIN s.dirs :
   LET x == s.dirs[d]  y == s2.dirs[d] IN
   x.st = "ok" => y.st = "ok" /\ y.k \in {x.k, x.k + 1} /\ IsPrefix(x.bags, y.bags) /\ (y.k = x.k => y = x)
===============================================================================
