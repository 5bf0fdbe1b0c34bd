---------------------------- MODULE TracingModeMC ----------------------------
EXTENDS TracingMode, Json
CONSTANTS MaxCtx, MaxDepth, Gen, Names
VARIABLES s, hist
Objs == {1, 2}
CtxOps(x) ==
  UNION {   {[op |-> "enter", c |-> c, v |-> v] : v \in BOOLEAN} : c \in {d \in 1..Len(x.stk) : Len(x.stk[d]) < MaxDepth}}
  \cup {[op |-> "exit", c |-> c, exc |-> b] : c \in {d \in 1..Len(x.stk) : x.stk[d] # <<>>}, b \in BOOLEAN}
  \cup (IF Len(x.stk) < MaxCtx THEN {[op |-> "copy", c |-> c] : c \in 1..Len(x.stk)} \cup {[op |-> "thread", c |-> 1]} ELSE {})
ConfOps(x) ==
  {[op |-> "conf", e |-> e, t |-> t] : e \in Objs, t \in {0, 1, 3, 4}}
  \cup {[op |-> "prep", names |-> n] : n \in {<<[name |-> "a", obj |-> 1]>>,
            <<[name |-> "a", obj |-> 1], [name |-> "b", obj |-> 2]>>, <<[name |-> "b", obj |-> 1], [name |-> "a", obj |-> 1]>>}}
Ops(x) == IF Names THEN ConfOps(x) \cup {o \in CtxOps(x) : o.op = "enter" \/ o.op = "exit"} ELSE CtxOps(x)
Init == s = S0 /\ hist = <<>>
Next == \E o \in Ops(s) : s' = Do(s, o).s /\ hist' = Append(hist, o)
View == s
Emit == Gen => PrintT("GEN" \o ToJson(hist'))
(* Properties of the design. *)
\* A step of one context never changes what any other context observes.
IsolatedSteps == \A o \in CtxOps(s) : LET d == Do(s, o).s IN
   \A c \in 1..Len(s.stk) : (c # o.c \/ o.op \in {"copy", "thread"}) => Mode(d, c) = Mode(s, c)
\* Leaving a scope restores exactly what was observed before entering it.
Restores == \A c \in 1..Len(s.stk) : \A v \in BOOLEAN : \A x \in BOOLEAN :
   LET d == Do(Do(s, [op |-> "enter", c |-> c, v |-> v]).s, [op |-> "exit", c |-> c, exc |-> x]).s
   IN d = s /\ Mode(Do(s, [op |-> "enter", c |-> c, v |-> v]).s, c) = v
\* A published name resolves to its eager object outside tracing and never to it (unless
\* registered so) inside.
Dispatch == \A n \in DOMAIN s.disp : \A c \in 1..Len(s.stk) :
   LET r == Do(s, [op |-> "attr", name |-> n, c |-> c]).r IN
   IF Mode(s, c) THEN (r = "AttributeError") <=> (s.disp[n].t = 0)
   ELSE r = "e:" \o ToString(s.disp[n].e)
===============================================================================
