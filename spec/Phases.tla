-------------------------------- MODULE Phases --------------------------------
(* Concurrent histories whose operations take effect in one or more atomic     *)
(* steps.  Adv(state, p) is the set of next steps of the operation p.o at its  *)
(* program point p.pc: [s |-> successor, pc |-> program point, r |-> <<>> or   *)
(* <<result>> once finished].  Enter(state, e) is the set of states in which   *)
(* the invocation e may be accepted; Other(state, e) the set of successors     *)
(* for an event that is not an operation.                                      *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Adv(_, _), Enter(_, _), Other(_, _)

Conf(s) == [s |-> s, p |-> <<>>]        \* p: function from busy threads

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Fire(c, i) == {[s |-> d.s, p |-> Put(c.p, i, [o |-> c.p[i].o, pc |-> d.pc, r |-> d.r])] : d \in Adv(c.s, c.p[i])}
RECURSIVE Closure(_)
Closure(C) ==
  LET N == C \cup UNION {UNION {Fire(c, i) : i \in {j \in DOMAIN c.p : c.p[j].r = <<>>}} : c \in C}
  IN IF N = C THEN C ELSE Closure(N)

\* Invocations whose acceptance depends on the effects of pending operations are preceded by these effects.
Inv(c, e, late) == LET C == IF late THEN Closure({c}) ELSE {c}
                   IN UNION {{[s |-> t, p |-> Put(d.p, e.th, [o |-> e.o, pc |-> 0, r |-> <<>>])] : t \in Enter(d.s, e)} : d \in C}
Res(c, e) == {[s |-> d.s, p |-> Drop(d.p, e.th)] : d \in {x \in Closure({c}) : x.p[e.th].r = <<e.r>>}}

Step(c, e) ==
  CASE e.e = "inv" -> Inv(c, e, e.o.k = "cb")
    [] e.e = "res" -> Res(c, e)
    [] e.e = "op"  -> UNION {Res(d, e) : d \in Inv(c, e, e.o.k = "cb")}
    [] OTHER -> IF e.e = "quiet" /\ c.p # <<>> THEN {}      \* an operation that never returned
                ELSE {[s |-> t, p |-> c.p] : t \in Other(c.s, e)}
===============================================================================
