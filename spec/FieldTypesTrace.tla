---------------------------- MODULE FieldTypesTrace ----------------------------
EXTENDS FieldTypes, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
Prim(i) == [k |-> "prim", i |-> i]
\* the fixed dataclasses 1 and 2 of the driver
Defs == <<[x |-> Prim(1), y |-> [k |-> "union", args |-> <<[k |-> "dc", i |-> 2], [k |-> "none"]>>]],
          [x |-> [k |-> "list", args |-> <<[k |-> "dc", i |-> 1]>>], y |-> [k |-> "any"]]>>
Expect(e) == IF e.op = "decay" THEN Decay(e.t)
             \* "field": a fresh dataclass whose field x has type e.t, field y is an int
             ELSE IF e.op = "field" THEN Lookup(<<[x |-> e.t, y |-> Prim(1)]>>, [k |-> "dc", i |-> 1], e.attr, e.prim)
             ELSE Lookup(Defs, e.t, e.attr, e.prim)
\* both the first answer and the one given from the type-hint cache
Same(e, r) == LET x == Expect(e) IN
   /\ r.ok = x.ok
   /\ (x.ok => r.absent = x.absent)
   /\ (x.ok /\ ~x.absent => r.opt = x.opt /\ r.t = x.t)
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {0},
        StepOf <- LAMBDA s, e : IF Same(e, e.r1) /\ Same(e, e.r2) THEN {0} ELSE {},
        WhyOf <- LAMBDA s, e : Expect(e)
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
