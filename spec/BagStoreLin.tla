------------------------------ MODULE BagStoreLin ------------------------------
(* Concurrent managers of shared directories: every recorded history must be   *)
(* explainable by atomic operations in an order consistent with real time.      *)
EXTENDS BagStore, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
Pairs(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
Read == {"names", "load", "minimal"}
DoR(s, o) == LET d == Do(s, o) IN
  IF o.op \in Read
  THEN [s |-> s, r |-> IF Refused(s, o) THEN [x |-> "err", v |-> {}] ELSE [x |-> "ok", v |-> d.r]]
  ELSE [s |-> d.s, r |-> [x |-> d.r, v |-> {}]]
Canon(e) == [x |-> e.r, v |-> CASE e.op = "names" -> Set(e.v)
                                [] e.op = "load" -> {<<e.v[i][1], Pairs(e.v[i][2])>> : i \in 1..Len(e.v)}
                                [] e.op = "minimal" -> Pairs(e.v)
                                [] OTHER -> {}]
L == INSTANCE Linearizable WITH Do <- DoR
Bind(c, e) == IF e.e = "res" THEN L!Step(c, [e |-> "res", th |-> e.th, r |-> Canon(e)]) ELSE L!Step(c, e)
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {L!Conf(S0)},
        StepOf <- Bind, WhyOf <- LAMBDA c, e : c
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
