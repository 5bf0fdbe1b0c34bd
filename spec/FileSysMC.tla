------------------------------ MODULE FileSysMC ------------------------------
EXTENDS FileSys, Json
CONSTANTS Gen, Depth
VARIABLES s, hist
P == {<<"a">>, <<"b">>, <<"d">>, <<"d", "a">>, <<"d", "e">>, <<"d", "e", "a">>}
Ops == {[op |-> "remove", p |-> p] : p \in P}
   \cup {[op |-> "write", p |-> p, d |-> "x"] : p \in P \ {<<"d", "e">>}}
   \cup {[op |-> "make_dirs", p |-> p] : p \in P}
   \cup {[op |-> "rename", p |-> p, q |-> q, ow |-> w] : p \in P, q \in P, w \in BOOLEAN}
Init == s = S0 /\ hist = <<>>
Next == Len(hist) < Depth /\ \E o \in Ops : s' = Do(s, o).s /\ hist' = Append(hist, o)
View == s
Emit == Gen => PrintT("GEN" \o ToJson(hist'))
Tree == \A p \in DOMAIN s : IsDir(s, Parent(p))
Clean == \A o \in Ops : FailsCleanly(s, o) /\ KeepsFiles(s, o)
===============================================================================
