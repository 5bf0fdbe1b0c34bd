----------------------------- MODULE UnwrapTrace -----------------------------
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
CanGo(x, c, v) == x[c].to # 0 /\ x[x[c].to].callable /\ c \notin v
RECURSIVE Walk(_, _, _)
Walk(x, c, v) == IF CanGo(x, c, v) THEN Walk(x, x[c].to, v \cup {c}) ELSE c
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {0},
        StepOf <- LAMBDA s, e : IF e.r = Walk(e.w, e.start, {}) THEN {0} ELSE {},
        WhyOf <- LAMBDA s, e : Walk(e.w, e.start, {})
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
