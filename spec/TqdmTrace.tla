------------------------------- MODULE TqdmTrace -------------------------------
EXTENDS Tqdm, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {S0(tr.cfg)},
        StepOf <- Step,
        WhyOf <- LAMBDA s, e : [context |-> [c \in 1..Len(s.stk) |-> Cur(s, c)], bars |-> s.bars]
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
