------------------------------ MODULE ProgressMC ------------------------------
(* Generates every combination of representative field values and checks that  *)
(* the collapse is idempotent and loses only the documented information.        *)
EXTENDS Progress, Json
CONSTANTS Nums
VARIABLES p, done
Vals == {<<x>> : x \in Nums} \cup {<<>>}
Init == /\ done = FALSE
        /\ p \in [n : Vals, total : Vals, elapsed_secs : {0, 7}, rate : {<<0>>, <<2>>, <<>>}, initial : {0, 3},
                  unit : {"it", "", "B"}, desc : {"", "d", NoText}, postfix : {"", NoText, "p=1"},
                  bar_id : {"b"}, is_closed : BOOLEAN, is_displayed : BOOLEAN]
Next == ~done /\ done' = TRUE /\ p' = p /\ PrintT("GEN" \o ToJson(p))
Idempotent == Norm(Norm(p)) = Norm(p)
Lossless == /\ \A k \in {"n", "total", "rate"} : Unknown(p[k]) \/ Norm(p)[k] = p[k]
            /\ \A k \in {"unit", "desc", "postfix"} : p[k] \in {NoText, ""} \/ Norm(p)[k] = p[k]
            /\ \A k \in {"elapsed_secs", "initial", "bar_id", "is_closed", "is_displayed"} : Norm(p)[k] = p[k]
===============================================================================
