------------------------------ MODULE BagStoreMC ------------------------------
EXTENDS BagStore, Json
CONSTANTS Gen, Depth, Faults
VARIABLES s, hist
H == {"p", "q"}
D == {"A", "B"}
B(n, d, v) == [n |-> n, d |-> d, c |-> <<[k |-> "x", v |-> v]>>, m |-> ""]
News == {<<B("a", <<>>, 1)>>, <<B("b", <<"a">>, 2)>>, <<B("c", <<>>, 3)>>,
         <<B("c", <<>>, 4), B("d", <<"c">>, 5)>>, <<B("d", <<"e">>, 6), B("e", <<>>, 7)>>}
O(op, h, dir, names, wad, new) == [op |-> op, h |-> h, dir |-> dir, names |-> names, wad |-> wad, new |-> new]
Ops(st) ==
  {O("create", h, d, <<>>, FALSE, <<>>) : h \in H, d \in D}
  \cup {O("open", h, d, <<>>, FALSE, <<>>) : h \in H, d \in D}
  \cup {O("add", h, "", <<>>, FALSE, n) : h \in DOMAIN st.mgrs, n \in News}
  \cup {O(x, h, d, <<n>>, w, <<>>) : x \in {"branch", "extract"}, h \in DOMAIN st.mgrs, d \in D, n \in {"a", "b", "c"}, w \in BOOLEAN}
Init == s = S0 /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops(s) :
             \/ s' = Do(s, o).s /\ hist' = Append(hist, o)
             \/ Faults /\ s' \in Faulted(s, o) /\ hist' = Append(hist, [o EXCEPT !.op = @ \o "!"])
View == s
Emit == Gen => PrintT("GEN" \o ToJson(hist'))
Inv == WellFormed(s)
Steps == \A o \in Ops(s) : Durable(s, Do(s, o).s) /\ \A x \in Faulted(s, o) : Durable(s, x)
===============================================================================
