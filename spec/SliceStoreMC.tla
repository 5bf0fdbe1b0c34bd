----------------------------- MODULE SliceStoreMC -----------------------------
EXTENDS SliceStore, Json
CONSTANTS Gen, Depth, Faults
VARIABLES s, hist
H == {"p", "q"}
D == {"A", "B"}
N(k, e) == [k |-> k, e |-> e]
U == [root |-> N("ent", <<>>), Q |-> N("ent", <<>>), I |-> N("prim", <<>>), LQ |-> N("list", <<"Q">>)]
At(n) == [a |-> "attr", n |-> n]
Ex == [a |-> "explode", n |-> ""]
O0 == [op |-> "", h |-> "", h2 |-> "", dir |-> "", idx |-> -1, ro |-> FALSE, path |-> <<>>, ptext |-> "", attr |-> "", vt |-> "",
       const |-> "", vals |-> <<>>, f |-> [c |-> <<>>, l |-> <<>>, d |-> <<>>], decl |-> <<>>, desc |-> "", bad |-> FALSE]
C(e, a, v) == [e |-> e, a |-> a, v |-> v]
Up(h, p, tx, a, vt, c, fc, fl, decl) ==
  [O0 EXCEPT !.op = "update", !.h = h, !.path = p, !.ptext = tx, !.attr = a, !.vt = vt, !.const = c,
             !.f = [c |-> fc, l |-> fl, d |-> <<>>], !.decl = decl]
QA == <<<<"Q", "a", "I">>>>
Updates(h) == {
  Up(h, <<>>, "", "x", "Q", "Q:1", <<C("Q:1", "a", "i:1")>>, <<>>, QA),
  Up(h, <<>>, "", "y", "LQ", "LQ:1", <<C("Q:1", "a", "i:2")>>, <<[n |-> "LQ:1", v |-> <<"Q:1", "Q:2">>]>>, QA),
  Up(h, <<At("x")>>, ".x", "a", "I", "i:3", <<>>, <<>>, <<>>),
  Up(h, <<At("y"), Ex>>, ".y[:]", "q", "Q", "Q:2", <<C("Q:2", "a", "i:4")>>, <<>>, QA),
  Up(h, <<>>, "", "x", "I", "i:5", <<>>, <<>>, <<>>)}
Ops(st) ==
  {[O0 EXCEPT !.op = "create", !.h = h, !.dir = d, !.desc = "c"] : h \in H, d \in D}
  \cup {[O0 EXCEPT !.op = "open", !.h = h, !.dir = d, !.idx = i, !.ro = r] : h \in H, d \in D, i \in {-1, 0, 1}, r \in BOOLEAN}
  \cup UNION {Updates(h) : h \in DOMAIN st.mgrs}
  \cup {[O0 EXCEPT !.op = "branch", !.h = h, !.h2 = h2, !.dir = d, !.idx = i] : h \in DOMAIN st.mgrs, h2 \in H, d \in D, i \in {-1, 0, -3}}
  \cup {[O0 EXCEPT !.op = "rocopy", !.h = h, !.h2 = h2] : h \in DOMAIN st.mgrs, h2 \in H}
  \cup {[O0 EXCEPT !.op = "setro", !.h = h] : h \in DOMAIN st.mgrs}
Init == s = S0(U) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops(s) :
             \/ \E x \in Step(s, o) : s' = x.s /\ hist' = Append(hist, o)
             \/ Faults /\ s' \in Faulted(s, o) /\ hist' = Append(hist, [o EXCEPT !.op = @ \o "!"])
View == s
Emit == Gen => PrintT("GEN" \o ToJson(hist'))
Inv == WellFormed(s)
Props == \A o \in Ops(s) : /\ \A x \in Step(s, o) : Durable(s, x.s) /\ Isolated(s, x.s, o)
                           /\ \A x \in Faulted(s, o) : Durable(s, x) /\ Isolated(s, x, [o EXCEPT !.h = "", !.h2 = ""])
===============================================================================
