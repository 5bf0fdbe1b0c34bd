---------------------------- MODULE JsonStreamTrace ----------------------------
(* Executions of the JSON stream processors and of JsonStreamParser, each on  *)
(* one text cut into chunks in several ways, against JsonStream and JsonDoc.   *)
EXTENDS JsonDoc, Json, IOUtils, TLC
VARIABLES t, l, S
TracesF == JsonDeserialize(IOEnv.TRACES)

All(q, Ok(_)) == \A i \in 1..Len(q) : Ok(q[i])
NeedsLines == {"head", "objects", "arrays", "nonnull", "extract", "implode"}
NthNewline(s, n) == LET N == {i \in 1..Len(s) : s[i] = 10 /\ Cardinality({j \in 1..i : s[j] = 10}) = n}
                    IN IF N = {} THEN Len(s) + 1 ELSE CHOOSE i \in N : TRUE

Transform(e) ==
  LET r == Values(e.in, FALSE)
      x == Out(e.o, r.vs)
  IN /\ r.ok
     /\ e.o.kind \in NeedsLines => e.in = CompactLines(r.vs)
     /\ All(e.outs, LAMBDA y : SameText(e.o.kind, y, x))
     /\ e.o.kind = "head" => IF e.o.a <= 0 THEN e.at <= 1 ELSE e.at = NthNewline(e.in, e.o.a)

Chunked(e) ==
  LET r == Values(e.in, FALSE)
  IN r.ok /\ All(e.outs, LAMBDA y : y = [i \in 1..Len(r.vs) |-> Compact(r.vs[i]) \o <<10>>])

AsciiOk(e, y) == e.ascii => \A i \in 1..Len(y) : y[i] < 128
\* Whatever salvage is given, its output is a sequence of JSON values, and the same however the input is cut.
Salvaged(e) == /\ Len(e.outs) = 1
               /\ LineValues(e.outs[1], e.nan).ok /\ AsciiOk(e, e.outs[1])
SalvagedJson(e) ==
  LET r == Values(e.in, e.nan)
  IN /\ r.ok /\ Salvaged(e)
     /\ (\A i \in 1..Len(r.vs) : Depth(r.vs[i]) <= e.depth)
          => DenoteAll(LineValues(e.outs[1], e.nan).vs) = DenoteAll(r.vs)
SalvagedDoc(e) ==
  /\ DocSurface(e.doc) = e.in
  /\ Salvaged(e)
  /\ DenoteAll(LineValues(e.outs[1], e.nan).vs) = DocMeaning(e.doc, e.nan)

SameEvent(g, x, keep) ==
  /\ g.b = x.b /\ g.p = x.p
  /\ IF g.b THEN g.ty = x.ty ELSE Scan(g.j, 1) = Tokens(x.v, keep)
Ended(ev, p) == LET E == SelectSeq(ev, LAMBDA x : ~x.b /\ x.p = p) IN [i \in 1..Len(E) |-> E[i].j]
ParsedRun(e, r) ==
  LET X == DocEvents(e.doc)
  IN /\ r.ok
     /\ Len(r.ev) = Len(X) /\ \A i \in 1..Len(X) : SameEvent(r.ev[i], X[i], e.keep)
     /\ IF e.keep THEN Scan(r.con, 1) = DocTokens(e.doc, TRUE) ELSE r.con = Flat(Ended(r.ev, <<36>>))
     /\ r.str = Ended(r.ev, e.path)
Parsed(e) == DocSurface(e.doc) = e.in /\ All(e.runs, LAMBDA r : ParsedRun(e, r))

\* A text is badly bracketed if a closer meets no opener or one of the other kind, or an opener stays open.
RECURSIVE BadBrackets(_, _, _, _)
BadBrackets(s, i, stk, in) ==
  IF i > Len(s) THEN stk # <<>>
  ELSE IF in THEN (IF s[i] = Back THEN BadBrackets(s, i + 2, stk, TRUE) ELSE BadBrackets(s, i + 1, stk, s[i] # Quot))
  ELSE IF s[i] = Quot THEN BadBrackets(s, i + 1, stk, TRUE)
  ELSE IF s[i] \in {91, 123} THEN BadBrackets(s, i + 1, Append(stk, s[i]), FALSE)
  ELSE IF s[i] \in {93, 125}
       THEN IF stk = <<>> \/ stk[Len(stk)] # s[i] - 2 THEN TRUE ELSE BadBrackets(s, i + 1, SubSeq(stk, 1, Len(stk) - 1), FALSE)
  ELSE BadBrackets(s, i + 1, stk, FALSE)
Truncated(e) == BadBrackets(e.in, 1, <<>>, FALSE) /\ All(e.oks, LAMBDA o : ~o)

Holds(e) ==
  CASE e.op = "tf" -> Transform(e)
    [] e.op = "quote" -> All(e.outs, LAMBDA y : y = Quote(e.in))
    [] e.op = "chunk" -> Chunked(e)
    [] e.op = "any" -> Salvaged(e)
    [] e.op = "json" -> SalvagedJson(e)
    [] e.op = "doc" -> SalvagedDoc(e)
    [] e.op = "parse" -> Parsed(e)
    [] e.op = "trunc" -> Truncated(e)
Why(e) ==
  CASE e.op = "tf" -> Out(e.o, Values(e.in, FALSE).vs)
    [] e.op = "quote" -> Quote(e.in)
    [] e.op = "json" -> DenoteAll(Values(e.in, e.nan).vs)
    [] e.op = "doc" -> DocMeaning(e.doc, e.nan)
    [] e.op = "parse" -> DocEvents(e.doc)
    [] OTHER -> <<>>
TC == INSTANCE TraceCheck WITH Traces <- TracesF, InitOf <- LAMBDA tr : {0},
        StepOf <- LAMBDA s, e : IF Holds(e) THEN {s} ELSE {}, WhyOf <- LAMBDA s, e : Why(e)
TInit == TC!TInit
TNext == TC!TNext
===============================================================================
