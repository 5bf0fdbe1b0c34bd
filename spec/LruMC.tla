-------------------------------- MODULE LruMC --------------------------------
(* Exhaustive check of the LRU design, and generation of one behaviour per    *)
(* transition of its state graph (hist is hidden from the state by a VIEW).    *)
EXTENDS Lru, Json
CONSTANTS Keys, Sizes, Maxes, Gen
VARIABLES s, hist
Ops == [op : {"get", "remove"}, k : Keys, v : {0}, n : {0}]
       \cup {[op |-> "set", k |-> k, v |-> 10 * k + n, n |-> n] : k \in Keys, n \in Sizes}
       \cup {[op |-> "set_max", k |-> 0, v |-> 0, n |-> m] : m \in Maxes}
       \cup {[op |-> "clear", k |-> 0, v |-> 0, n |-> 0]}
Init == \E m \in Maxes : s = S0(m) /\ hist = <<m>>
Next == \E o \in Ops : s' = Do(s, o).s /\ hist' = Append(hist, o)
View == s
Emit == Gen => PrintT("GEN" \o ToJson(hist'))
InvBudget == WithinBudget(s)
InvNoDup == NoDuplicates(s)
InvSteps == \A o \in Ops : StepOk(s, o)
===============================================================================
