---------------------------- MODULE SlicePathTrace ----------------------------
EXTENDS SlicePath, Json, IOUtils
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)
Range(q) == {q[i] : i \in 1..Len(q)}
\* str: a path was written; parse: a string was read; paths: the generator ran;
\* sub: a path was applied to a schema; eq: algebra of paths
Ok(e) ==
  CASE e.op = "str" -> e.r = "ok" /\ e.w = ToStr(e.p)
    [] e.op = "back" -> e.r = "ok" /\ e.q = e.p              \* parse(to_string(p)) = p
    [] e.op = "parse" -> IF Derivable(e.w, 1)
                         THEN \/ e.r = "ok" /\ Spells(e.w, 1, e.p, 1)
                              \/ e.r = "error" /\ e.odd      \* base64 text that is not canonical or not UTF-8
                         ELSE e.r = "error" \/ e.odd
    [] e.op = "paths" -> /\ e.r = "ok"
                         /\ Range(e.v) = Paths(e.g, e.x, e.d)
                         /\ Cardinality(Range(e.v)) = Len(e.v)
                         /\ \A i \in 1..Len(e.v) - 1 : Len(e.v[i]) <= Len(e.v[i + 1])
    [] e.op = "sub" -> LET y == Walk(e.g, e.x, e.p, 1) IN
                       IF y = <<>> THEN e.r = "error" ELSE e.r = "ok" /\ y[1] \in Range(e.y)
    [] e.op = "alg" -> /\ e.r = "ok" /\ e.cat = e.p \o e.q /\ e.dep = Len(e.p) /\ e.ext = Append(e.p, e.z)
                       /\ e.eq = (e.p = e.q)
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {0},
        StepOf <- LAMBDA s, e : IF Ok(e) THEN {s} ELSE {},
        WhyOf <- LAMBDA s, e : IF e.op = "str" THEN ToStr(e.p) ELSE IF e.op = "parse" THEN <<ToString(Derivable(e.w, 1))>> ELSE <<>>
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
