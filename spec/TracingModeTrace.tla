--------------------------- MODULE TracingModeTrace ---------------------------
EXTENDS TracingMode, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
ToSet(q) == {q[i] : i \in 1..Len(q)}
Bind(s, e) == LET d == Do(s, e)
                  r == IF e.op = "dir" THEN ToSet(e.r) ELSE e.r
              IN IF d.r = r THEN {d.s} ELSE {}
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {S0},
        StepOf <- Bind, WhyOf <- LAMBDA s, e : Do(s, e).r
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
