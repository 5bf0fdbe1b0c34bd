--------------------------------- MODULE Lru ---------------------------------
(* The size-tracking LRU cache (ext/storage/lru_size_tracking_cache.py).       *)
(* Abstract state: the byte budget and the entries from least to most         *)
(* recently used.  Each public call is one atomic step with a result.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Miss == -1                      \* what get(k, default) returns when k is absent

RECURSIVE SumSizes(_)
SumSizes(q) == IF q = <<>> THEN 0 ELSE Head(q).n + SumSizes(Tail(q))

Idx(q, k) == {i \in 1..Len(q) : q[i].k = k}
Has(q, k) == Idx(q, k) # {}
At(q, k) == q[CHOOSE i \in Idx(q, k) : TRUE]
Without(q, k) == SelectSeq(q, LAMBDA e : e.k # k)
Touch(q, k) == Append(Without(q, k), At(q, k))

\* Evict from the least recently used end, and only as long as necessary.
RECURSIVE Shrink(_, _)
Shrink(q, m) == IF SumSizes(q) <= m THEN q ELSE Shrink(Tail(q), m)

S0(m) == [max |-> m, q |-> <<>>]

R(s, r) == [s |-> s, r |-> r]
\* op: [op, k, v, n] -> successor state and result
Do(s, o) ==
  CASE o.op = "get" ->
         IF Has(s.q, o.k) THEN R([s EXCEPT !.q = Touch(@, o.k)], At(s.q, o.k).v)
         ELSE R(s, Miss)
    [] o.op = "set" ->
         IF Has(s.q, o.k) THEN R([s EXCEPT !.q = Touch(@, o.k)], At(s.q, o.k).v)
         ELSE IF o.n > s.max THEN R(s, o.v)
         ELSE R([s EXCEPT !.q = Append(Shrink(@, s.max - o.n), [k |-> o.k, v |-> o.v, n |-> o.n])], o.v)
    [] o.op = "remove" -> R([s EXCEPT !.q = Without(@, o.k)], 0)
    [] o.op = "clear" -> R([s EXCEPT !.q = <<>>], 0)
    [] o.op = "set_max" ->
         IF o.n < 0 THEN R(s, -99)     \* ValueError, nothing changes
         ELSE R([max |-> o.n, q |-> Shrink(s.q, o.n)], 0)
    [] o.op = "total" -> R(s, SumSizes(s.q))
    [] o.op = "max" -> R(s, s.max)

-------------------------------------------------------------------------------
(* Properties of the design, as predicates on states and steps.               *)
WithinBudget(s) == SumSizes(s.q) <= s.max
NoDuplicates(s) == \A i, j \in 1..Len(s.q) : s.q[i].k = s.q[j].k => i = j
\* The first value stored for a key stays the one everybody gets.
FirstSetWins(s, o) == o.op = "set" /\ Has(s.q, o.k) => Do(s, o).r = At(s.q, o.k).v
\* After a step that stored or fetched k, k is the most recently used entry.
MostRecent(s, o) ==
  LET d == Do(s, o) IN
  o.op \in {"get", "set"} /\ Has(d.s.q, o.k) => d.s.q[Len(d.s.q)].k = o.k
\* Evictions never skip: the survivors (other than the touched key) are a suffix.
EvictsOnlyLru(s, o) ==
  LET a == Without(s.q, o.k)  b == Without(Do(s, o).s.q, o.k) IN
  o.op \in {"set", "set_max"} =>
     \E i \in 0..Len(a) : b = SubSeq(a, i + 1, Len(a))
\* Evictions never take more than needed: putting back the last victim would not fit.
EvictsMinimally(s, o) ==
  LET d == Do(s, o).s
      a == Without(s.q, o.k)  b == Without(d.q, o.k) IN
  o.op \in {"set", "set_max"} /\ Len(b) < Len(a) =>
     a[Len(a) - Len(b)].n + SumSizes(d.q) > d.max
StepOk(s, o) == /\ WithinBudget(Do(s, o).s) /\ NoDuplicates(Do(s, o).s)
                /\ FirstSetWins(s, o) /\ MostRecent(s, o)
                /\ EvictsOnlyLru(s, o) /\ EvictsMinimally(s, o)
===============================================================================
