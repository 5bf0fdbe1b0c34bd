---------------------------- MODULE ParStreamTrace ----------------------------
(* Recorded histories of real streams under a controlled scheduler.            *)
EXTENDS ParStream, TLC, Json, IOUtils
VARIABLES t, l, S
PH == INSTANCE Phases
TracesF == JsonDeserialize(IOEnv.TRACES)
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {PH!Conf(IF "want" \in DOMAIN tr THEN [Empty EXCEPT !.want = tr.want] ELSE Empty)},
        StepOf <- LAMBDA s, e : PH!Step(s, e), WhyOf <- LAMBDA s, e : s
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
