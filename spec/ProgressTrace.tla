----------------------------- MODULE ProgressTrace -----------------------------
EXTENDS Progress, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
\* every event is one state p with what the code made of it
Ok(e) == /\ e.r = "ok"
         /\ e.back = Norm(e.p)               \* through the message
         /\ e.wire = Norm(e.p)               \* through its serialized bytes
         /\ e.again = Norm(e.p)              \* a second trip changes nothing
         /\ FractionOk(e.p, e.fraction) /\ RemainingOk(e.p, e.remaining)
         /\ e.frozen
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {0},
        StepOf <- LAMBDA s, e : IF Ok(e) THEN {0} ELSE {},
        WhyOf <- LAMBDA s, e : [back |-> Norm(e.p)]
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
