------------------------------ MODULE LruLinTrace ------------------------------
EXTENDS Lru, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
L == INSTANCE Linearizable WITH Do <- Do
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {L!Conf(S0(tr.max))},
        StepOf <- L!Step, WhyOf <- LAMBDA c, e : c
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
