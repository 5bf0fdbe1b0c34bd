-------------------------------- MODULE Unwrap --------------------------------
(* util/kd_functools.unwrap: follow the decorator links of a callable.           *)
(* A world is a function w: node -> [to |-> next node or 0, callable |-> BOOL].   *)
(* The walk as a state machine; TLC checks that it terminates on every graph,    *)
(* including cyclic ones, and where it stops.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Gen
VARIABLES w, cur, visited, start, done
Nodes == 1..N
vars == <<w, cur, visited, start, done>>
CanGo(x, c, v) == x[c].to # 0 /\ x[x[c].to].callable /\ c \notin v
Init == /\ w \in [Nodes -> [to : 0..N, callable : BOOLEAN]]
        /\ start \in {n \in Nodes : w[n].callable}
        /\ cur = start /\ visited = {} /\ done = FALSE
Step == /\ ~done
        /\ IF CanGo(w, cur, visited)
           THEN /\ visited' = visited \cup {cur} /\ cur' = w[cur].to /\ UNCHANGED <<w, start, done>>
           ELSE /\ done' = TRUE /\ UNCHANGED <<w, cur, visited, start>>
                /\ (Gen => PrintT("GEN" \o ToJson([w |-> w, start |-> start])))
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Terminates == <>done
\* The result is callable; off cycles it is the innermost function reachable through callables.
Result == done => /\ w[cur].callable
                  /\ (cur \notin visited => (w[cur].to = 0 \/ ~w[w[cur].to].callable))
Bounded == Cardinality(visited) <= N
\* Closed form used to judge the implementation
RECURSIVE Walk(_, _, _)
Walk(x, c, v) == IF CanGo(x, c, v) THEN Walk(x, x[c].to, v \cup {c}) ELSE c
Agrees == done => cur = Walk(w, start, {})
===============================================================================
