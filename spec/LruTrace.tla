------------------------------- MODULE LruTrace -------------------------------
EXTENDS Lru, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
Bind(s, e) == LET d == Do(s, e) IN
  IF d.r = e.r THEN {d.s} ELSE {}
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {S0(tr.max)},
        StepOf <- Bind, WhyOf <- LAMBDA s, e : [r |-> Do(s, e).r, state |-> s]
TInit == TC!TInit
TNext == TC!TNext
InvBudget == \A s \in S : WithinBudget(s)
===============================================================================
