------------------------------ MODULE KViewTrace ------------------------------
(* Recorded programs over views.  Every event carries the whole heap after it. *)
EXTENDS KView, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
Heap(e) == [x \in DOMAIN e.heap |-> e.heap[x]]
Arg(s, x) == IF x.name = "" THEN View(0, x.t) ELSE s.vars[x.name]
Args(s, e) == [i \in 1..Len(e.args) |-> Arg(s, e.args[i])]
PutV(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Writes == {"setattr", "setitem", "append", "setattrs"}
Grows(s, e) == \A x \in DOMAIN s.heap : x \in DOMAIN e.heap /\ e.heap[x] = s.heap[x]
Same(s, e) == s.heap = Heap(e)
Wr(s, e, a) == IF e.op = "setattrs" THEN WriteAttrs(s.heap, e, a, 1) ELSE Write(s.heap, e, a)
Bind(s, e) ==
  IF e.op = "heap" THEN {[s EXCEPT !.heap = Heap(e)]}          \* the initial objects
  ELSE LET a == Args(s, e) IN
  IF e.op \in Writes THEN
    LET w == Wr(s, e, a)
    IN IF e.r = "err" THEN (IF w.ok \/ (w.kept /\ ~Same(s, e)) THEN {} ELSE {s})
       ELSE IF w.ok /\ w.h = Heap(e) THEN {[s EXCEPT !.heap = w.h]} ELSE {}
  ELSE IF e.op = "bool" THEN
    LET x == a[1] IN
    IF x.d = 0 /\ x.t.k \in {"P", "N"} THEN (IF e.r = "ok" /\ e.b = (x.t.k = "P") /\ Same(s, e) THEN {s} ELSE {})
    ELSE IF e.r = "err" /\ Same(s, e) THEN {s} ELSE {}
  ELSE IF e.op = "align" THEN
    LET w == Align(s.heap, e, a)
        ok == \A i \in 1..Len(w) : w[i].d >= 0
    IN IF ok THEN (IF e.r = "ok" /\ Same(s, e) /\ e.many = w THEN {s} ELSE {})
       ELSE IF e.r = "err" /\ Same(s, e) THEN {s} ELSE {}
  ELSE IF e.op = "deepmap" THEN
    LET w == DeepResult(s.heap, e, a) IN
    IF AnyErr(w) THEN (IF e.r = "err" /\ Same(s, e) THEN {s} ELSE {})
    ELSE IF e.r = "ok" /\ Grows(s, e) /\ e.d = Depth(a) /\ SameU(w, Unfold(Heap(e), e.t))
         THEN {[heap |-> Heap(e), vars |-> PutV(s.vars, e.dst, View(e.d, e.t))]} ELSE {}
  ELSE IF e.op = "clone" THEN
    IF e.r = "ok" /\ Grows(s, e) /\ e.d = a[1].d /\ IsCopy(s.heap, a[1].t, Heap(e), e.t)
    THEN {[heap |-> Heap(e), vars |-> PutV(s.vars, e.dst, View(e.d, e.t))]} ELSE {}
  ELSE LET w == Result(s.heap, e, a) IN
    IF w.d < 0 THEN (IF e.r = "err" /\ Same(s, e) THEN {s} ELSE {})
    ELSE IF e.r = "ok" /\ Same(s, e) /\ e.d = w.d /\ e.t = w.t
         THEN {[s EXCEPT !.vars = PutV(@, e.dst, w)]} ELSE {}
Why(s, e) == LET a == Args(s, e) IN
  IF e.op \in Writes THEN ToString(Wr(s, e, a))
  ELSE IF e.op = "deepmap" THEN ToString(DeepResult(s.heap, e, a))
  ELSE IF e.op = "align" THEN ToString(Align(s.heap, e, a))
  ELSE IF e.op \in {"bool", "clone"} THEN ToString(a) ELSE ToString(Result(s.heap, e, a))
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {[heap |-> <<>>, vars |-> <<>>]},
        StepOf <- Bind, WhyOf <- Why
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
