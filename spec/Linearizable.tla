----------------------------- MODULE Linearizable -----------------------------
(* Linearizability of a recorded concurrent history against a sequential       *)
(* specification Do(state, op) = [s |-> successor, r |-> result].               *)
(* A configuration is the abstract state plus, per thread with a call in       *)
(* flight, either its operation (not yet taken effect) or its result.          *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Do(_, _)

Conf(s) == [s |-> s, p |-> <<>>]        \* p: function from busy threads

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Fire(c, i) == LET d == Do(c.s, c.p[i].o)
              IN [s |-> d.s, p |-> Put(c.p, i, [done |-> TRUE, o |-> c.p[i].o, r |-> <<d.r>>])]
RECURSIVE Closure(_)
Closure(C) ==
  LET N == C \cup UNION {{Fire(c, i) : i \in {j \in DOMAIN c.p : ~c.p[j].done}} : c \in C}
  IN IF N = C THEN C ELSE Closure(N)

Step(c, e) ==
  IF e.e = "inv"
  THEN {[s |-> c.s, p |-> Put(c.p, e.th, [done |-> FALSE, o |-> e, r |-> <<>>])]}
  ELSE IF e.e = "res"
  THEN {[s |-> d.s, p |-> Drop(d.p, e.th)] :
          d \in {x \in Closure({c}) : x.p[e.th].done /\ x.p[e.th].r[1] = e.r}}
  ELSE {}   \* "deadlock" and "error" events are never explainable
===============================================================================
