---------------------------- MODULE SliceStoreTrace ----------------------------
EXTENDS SliceStore, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
Facts(v) == [c |-> {<<x[1], x[2], x[3]>> : x \in Set(v.c)}, l |-> {<<x[1], x[2]>> : x \in Set(v.l)},
             k |-> {<<x[1], Set(x[2])>> : x \in Set(v.k)}, v |-> {<<x[1], Set(x[2])>> : x \in Set(v.v)}]
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Set(a) : Count(a, x) = Count(b, x)
Unordered(p) == \E i \in 1..Len(p) : p[i].a \in {"keys", "values"}
Agrees(s, e) == LET w == Value(s, e) IN
  CASE e.op = "get" -> Facts(e.v) = w
    [] e.op = "at" -> /\ IF Unordered(e.path) THEN SameBag(e.q, w.q) ELSE e.q = w.q
                      /\ Facts(e.v) = w.f
    [] e.op = "exists" -> e.b = w
    [] e.op = "paths" -> /\ Set(e.ps) = w /\ Len(e.ps) = Cardinality(w)
                         /\ \A i \in 1..Len(e.ps) - 1 : Len(e.ps[i]) <= Len(e.ps[i + 1])
    [] e.op = "schema" -> {<<x[1], x[2], x[3]>> : x \in Set(e.ts)} = w
    [] e.op = "history" -> e.hs = w
Bind(s, e) ==
  IF e.r = "fault" THEN Faulted(s, e)
  ELSE IF e.op \in {"get", "at", "exists", "paths", "schema", "history"}
  THEN IF Refused(s, e) THEN (IF e.r = "err" THEN {s} ELSE {})
       ELSE IF e.r = "ok" /\ Agrees(s, e) THEN {s} ELSE {}
  ELSE {x.s : x \in {y \in Step(s, e) : y.r = e.r}}
Why(s, e) == IF e.r = "fault" THEN "fault"
             ELSE IF e.op \in {"get", "at", "exists", "paths", "schema", "history"}
             THEN IF Refused(s, e) THEN "refused" ELSE ToString(Value(s, e))
             ELSE ToString({y.r : y \in Step(s, e)})
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {S0(tr.u)},
        StepOf <- Bind, WhyOf <- Why
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
