----------------------------- MODULE BagStoreTrace -----------------------------
EXTENDS BagStore, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
Pairs(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
\* the recorded result of a reading operation, as the specification writes it
Got(e) == CASE e.op = "names" -> Set(e.v)
            [] e.op = "sort" -> e.v
            [] e.op = "load" -> {<<e.v[i][1], Pairs(e.v[i][2])>> : i \in 1..Len(e.v)}
            [] OTHER -> Pairs(e.v)
Bind(s, e) ==
  IF e.r = "fault" THEN Faulted(s, e)
  ELSE IF e.op = "sort" /\ ~(Set(e.names) \subseteq Names(s.mgrs[e.h].bags)) THEN {s}   \* unspecified
  ELSE LET d == Do(s, e) IN
       IF e.op \in {"names", "meta", "load", "minimal", "sort"}
       THEN IF Refused(s, e) THEN (IF e.r = "err" THEN {s} ELSE {})
            ELSE IF e.r = "ok" /\ Got(e) = d.r THEN {s} ELSE {}
       ELSE IF d.r = e.r THEN {d.s} ELSE {}
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {S0},
        StepOf <- Bind, WhyOf <- LAMBDA s, e : [r |-> Do(s, e).r, s |-> s]
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
