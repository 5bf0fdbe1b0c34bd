----------------------------- MODULE FieldTypesMC -----------------------------
(* Enumerates all type terms up to a nesting depth and all queries on them.      *)
EXTENDS FieldTypes, Json
CONSTANT Deep
VARIABLES q, done
Leaf == {[k |-> "prim", i |-> i] : i \in {1, 2}} \cup {[k |-> "any"], [k |-> "ns"], [k |-> "dc", i |-> 1], [k |-> "dc", i |-> 2]}
NoneT == [k |-> "none"]
Gen1(A) == {[k |-> k, args |-> <<a>>] : k \in {"list", "seq", "set"}, a \in A}
      \cup {[k |-> "tup", args |-> <<a>>, ell |-> TRUE] : a \in A}
      \cup {[k |-> "tup", args |-> <<a, b>>, ell |-> FALSE] : a \in A, b \in {[k |-> "prim", i |-> 1]}}
      \cup {[k |-> k, args |-> <<a, b>>] : k \in {"dict", "map"}, a \in {[k |-> "prim", i |-> 1], [k |-> "dc", i |-> 1]}, b \in A}
Uni(A) == {[k |-> "union", args |-> <<a, NoneT>>] : a \in A} \cup {[k |-> "union", args |-> <<NoneT, a>>] : a \in A}
      \cup {[k |-> "union", args |-> <<a, b>>] : a \in {[k |-> "prim", i |-> 1]}, b \in {[k |-> "prim", i |-> 2], [k |-> "dc", i |-> 1]}}
      \cup {[k |-> "union", args |-> <<[k |-> "prim", i |-> 1], [k |-> "prim", i |-> 2], NoneT>>]}
T1 == Leaf \cup {NoneT}
T2 == T1 \cup Gen1(Leaf) \cup Uni(Leaf)
T3 == T2 \cup Gen1(Uni(Leaf)) \cup Uni(Gen1(Leaf)) \cup (IF Deep THEN Gen1(Gen1(Leaf)) \cup Gen1(Uni(Gen1(Leaf))) \cup Uni(Gen1(Uni(Leaf))) ELSE {})
Attrs == {"__items__", "__keys__", "__values__", "x"}
Init == /\ done = FALSE
        /\ q \in [op : {"decay"}, t : T3, attr : {"x"}, prim : {FALSE}]
             \cup [op : {"lookup"}, t : T3 \cup {[k |-> "absent"]}, attr : Attrs, prim : BOOLEAN]
             \cup [op : {"field"}, t : T3, attr : {"x", "y", "zz"}, prim : BOOLEAN]
Next == ~done /\ done' = TRUE /\ q' = q /\ PrintT("GEN" \o ToJson(q))
Sound == DecayNeverOptionalTwice(q.t)
===============================================================================
