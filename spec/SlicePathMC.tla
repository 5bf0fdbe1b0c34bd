------------------------------ MODULE SlicePathMC ------------------------------
(* All paths over a few actions: writing is injective and readable back; all    *)
(* token strings up to a length are printed as parser inputs.                   *)
EXTENDS SlicePath, Json
CONSTANTS Depth, Gen
VARIABLES p, tok
A(n, u, i) == [a |-> "attr", n |-> n, u |-> u, i |-> i]
X(k) == [a |-> k, n |-> <<>>, u |-> <<>>, i |-> FALSE]
Acts == {X("keys"), X("values"), X("explode"), A(<<"a">>, <<97>>, TRUE), A(<<>>, <<>>, FALSE),
         A(<<"a",".">>, <<97,46>>, FALSE), A(<<"g","e","t","_","k","e","y","s">>, <<103,101,116,95,107,101,121,115>>, TRUE),
         A(<<"a"," ","b">>, <<97,32,98>>, FALSE)}
Toks == <<".get_keys()", ".get_values()", "[:]", ".a", ".get_attr(\"", ".get_attr('", "YQ==", "\")", "')", "Yi5j", ".", "b1", "1", "()", ".get_attr", "[", "=">>
Init == p = <<>> /\ tok = <<>>
Next == IF Gen THEN Len(tok) < Depth /\ \E i \in 1..Len(Toks) : tok' = Append(tok, Toks[i]) /\ p' = p
        ELSE Len(p) < Depth /\ \E x \in Acts : p' = Append(p, x) /\ tok' = tok
Emit == Gen => PrintT("GEN" \o ToJson(tok'))
Readable == Spells(ToStr(p), 1, p, 1) /\ Derivable(ToStr(p), 1)
Deterministic == \A q \in {SubSeq(p, 1, n) : n \in 0..Len(p) - 1} \cup {[p EXCEPT ![n] = x] : n \in 1..Len(p), x \in Acts} :
                   q # p => ~Spells(ToStr(p), 1, q, 1)
===============================================================================
