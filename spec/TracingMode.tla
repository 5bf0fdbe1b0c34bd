----------------------------- MODULE TracingMode -----------------------------
(* Tracing mode (expr/tracing_mode.py): a context-local switch with nested      *)
(* scopes, and modules whose public names resolve to the eager or the tracing   *)
(* implementation depending on the switch of the context that asks.             *)
(* State: stk[c]  values set by the open scopes of context c (last = current)   *)
(*        base[c] value inherited when c was created                            *)
(*        conf    registered eager object -> tracing object (0: eager only)     *)
(*        disp    published name -> [e, t], a snapshot of conf                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
S0 == [stk |-> <<<<>>>>, base |-> <<FALSE>>, conf |-> <<>>, disp |-> <<>>]

Mode(s, c) == IF s.stk[c] = <<>> THEN s.base[c] ELSE s.stk[c][Len(s.stk[c])]
R(s, r) == [s |-> s, r |-> r]

\* names: sequence of [name, obj]
Registered(s, names) == \A i \in 1..Len(names) : names[i].obj \in DOMAIN s.conf
Snapshot(s, names) ==
  [n \in {names[i].name : i \in 1..Len(names)} |->
     LET o == (CHOOSE i \in 1..Len(names) : names[i].name = n) IN
     [e |-> names[o].obj, t |-> s.conf[names[o].obj]]]

Do(s, o) ==
  CASE o.op = "enter" -> R([s EXCEPT !.stk[o.c] = Append(@, o.v)], "ok")
    [] o.op = "exit" -> R([s EXCEPT !.stk[o.c] = SubSeq(@, 1, Len(@) - 1)],
                          IF o.exc THEN "propagates" ELSE "ok")
    \* a new thread starts with tracing off, a copied context with its parent's mode
    [] o.op = "thread" -> R([s EXCEPT !.stk = Append(@, <<>>), !.base = Append(@, FALSE)], "ok")
    [] o.op = "copy" -> R([s EXCEPT !.stk = Append(@, <<>>), !.base = Append(@, Mode(s, o.c))], "ok")
    [] o.op = "query" -> R(s, IF Mode(s, o.c) THEN "T" ELSE "F")
    [] o.op = "conf" ->
         IF o.e \in DOMAIN s.conf /\ s.conf[o.e] # o.t THEN R(s, "ValueError")
         ELSE R([s EXCEPT !.conf = Put(@, o.e, o.t)], "e:" \o ToString(o.e))
    [] o.op = "prep" ->
         IF Registered(s, o.names) THEN R([s EXCEPT !.disp = Snapshot(s, o.names)], "ok")
         ELSE R(s, "ValueError")
    [] o.op = "attr" ->
         IF o.name \notin DOMAIN s.disp THEN R(s, "AttributeError")
         ELSE IF ~Mode(s, o.c) THEN R(s, "e:" \o ToString(s.disp[o.name].e))
         ELSE IF s.disp[o.name].t = 0 THEN R(s, "AttributeError")
         ELSE R(s, "e:" \o ToString(s.disp[o.name].t))
    [] o.op = "setattr" -> R(s, IF o.name \in DOMAIN s.disp THEN "AttributeError" ELSE "skip")
    [] o.op = "dir" -> R(s, DOMAIN s.disp)
===============================================================================
