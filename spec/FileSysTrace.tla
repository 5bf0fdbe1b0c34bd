----------------------------- MODULE FileSysTrace -----------------------------
EXTENDS FileSys, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
ToSet(q) == {q[i] : i \in 1..Len(q)}
Bind(s, e) == LET d == Do(s, e) IN
  IF e.op \in {"glob", "tree"}
  THEN IF e.r = "ok" /\ ToSet(e.set) = d.r /\ Len(e.set) = Cardinality(ToSet(e.set)) THEN {s} ELSE {}
  ELSE IF d.r = e.r THEN {d.s} ELSE {}
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {S0},
        StepOf <- Bind, WhyOf <- LAMBDA s, e : [r |-> Do(s, e).r, fs |-> s]
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
