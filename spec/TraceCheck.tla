------------------------------ MODULE TraceCheck ------------------------------
(* Generic trace validation by subset construction.  A recorded trace is a    *)
(* behaviour of the specification iff from the set of abstract states that    *)
(* explain its prefix at least one abstract step explains the next event.     *)
(* The verdict is total: a rejected event is printed with the clause that     *)
(* rejected it, and the number of distinct states certifies that every other  *)
(* trace was consumed to its end (checked by lib/vlib.py).                     *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Traces,        \* the recorded traces: a sequence of [ev |-> <<...>>, ...]
          InitOf(_),     \* trace -> set of abstract initial states
          StepOf(_, _),  \* abstract state, event -> set of abstract successor states
          WhyOf(_, _)    \* abstract state, event -> printable expectation
VARIABLES t, l, S
TInit == t \in 1..Len(Traces) /\ l = 0 /\ S = InitOf(Traces[t])
TNext == /\ l < Len(Traces[t].ev)
         /\ LET e == Traces[t].ev[l + 1]
                N == UNION {StepOf(s, e) : s \in S}
            IN IF N # {}
               THEN l' = l + 1 /\ S' = N /\ t' = t
               ELSE /\ PrintT("BAD|" \o ToString(t) \o "|" \o ToString(l + 1) \o "|" \o
                              ToString([expected |-> {WhyOf(s, e) : s \in S}, got |-> e]))
                    /\ FALSE
===============================================================================
