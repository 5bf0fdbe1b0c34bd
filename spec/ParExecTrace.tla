----------------------------- MODULE ParExecTrace -----------------------------
(* Recorded histories of executors under a controlled scheduler.        *)
EXTENDS ParExec, TLC, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {Empty},
        StepOf <- LAMBDA s, e : Step(s, e), WhyOf <- LAMBDA s, e : s
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
