----------------------------- MODULE ParFlowTrace -----------------------------
(* Recorded histories of combined streams under a controlled scheduler.        *)
EXTENDS ParFlow, TLC, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {[Empty EXCEPT !.T = IF "x" \in DOMAIN tr THEN tr.x.tab ELSE <<>>]},
        StepOf <- LAMBDA s, e : Step(s, e), WhyOf <- LAMBDA s, e : s
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
