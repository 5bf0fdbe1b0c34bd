--------------------------------- MODULE Tqdm ---------------------------------
(* Progress reporting (ext/tqdm): context-scoped reporters and progress bars.  *)
(* State: stk/base  reporter scopes per context (0 = no reporter)              *)
(*        bars      every bar created so far                                    *)
(* A bar reports only to the reporter that was active where it was created.     *)
(* For every call the specification says which reports are due (Due), which are *)
(* merely permitted (rate limiting that depends on the clock), and what each    *)
(* report must contain.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

S0(cfg) == [stk |-> <<<<>>>>, base |-> <<0>>, bars |-> <<>>, cfg |-> cfg]
Cur(s, c) == IF s.stk[c] = <<>> THEN s.base[c] ELSE s.stk[c][Len(s.stk[c])]

\* mi: 0 = no minimal interval, 1 = practically infinite, 2 = unspecified
\* ms: minimal iterations, -1 = unspecified
Eff(user, config, none) == IF user # none THEN user ELSE config
NewBar(s, c, o) ==
  LET r == Cur(s, c)
      cf == IF r = 0 THEN [mi |-> 2, ms |-> -1, sf |-> FALSE, sd |-> FALSE] ELSE s.cfg.reps[r]
  IN [rep |-> r, id |-> 0, n |-> o.init, total |-> o.total, init |-> o.init, lp |-> o.init,
      mi |-> Eff(o.mi, cf.mi, 2), ms |-> Eff(o.ms, cf.ms, -1),
      leave |-> o.leave, off |-> o.off, closed |-> FALSE, desc |-> o.desc, unit |-> o.unit,
      delay |-> o.delay,
      quiet |-> r # 0 /\ cf.sf /\ ~o.file,       \* terminal output suppressed
      term |-> ~(r # 0 /\ cf.sf) /\ ~o.file,    \* writes to the terminal
      nowidget |-> r # 0 /\ cf.sd /\ o.disp = "unset"]

Live(b) == ~b.off /\ ~b.closed
\* b after update(k)
Moved(b, k) == [b EXCEPT !.n = @ + k, !.lp = IF k < 0 THEN @ + k ELSE @]
\* May / must update(k) (already applied to b) emit a report?
Allowed(b) ==
  IF b.mi = 1 \/ b.delay THEN {0}
  ELSE IF b.ms >= 0 /\ b.n - b.lp < b.ms THEN {0}
  ELSE IF b.mi = 0 /\ b.ms >= 0 THEN {1}
  ELSE {0, 1}

\* Does report p describe bar b in its present state?
Matches(b, p) ==
  /\ p.rep = b.rep /\ p.n = b.n /\ p.total = b.total /\ p.closed = b.closed
  /\ p.disp = ((~b.closed \/ b.leave) /\ ~b.off)
  /\ (~b.off => p.desc = b.desc /\ p.unit = b.unit /\ p.init = b.init)
  /\ p.bar > 0 /\ p.elapsed_ok

\* Consume exactly the reports ps for bar i in state b; {} if they do not fit.
WithId(s, i, b, ps) ==
  IF ps = <<>> THEN {[s EXCEPT !.bars[i] = b]}
  ELSE IF /\ \A j \in 1..Len(ps) : Matches(b, ps[j]) /\ ps[j].bar = ps[1].bar
          /\ (b.id # 0 => b.id = ps[1].bar)
          /\ \A j \in 1..Len(s.bars) : j # i => s.bars[j].id # ps[1].bar
       THEN {[s EXCEPT !.bars[i] = [b EXCEPT !.id = ps[1].bar]]} ELSE {}
Reports(s, i, b, ps, allowed) ==
  IF b.rep = 0 THEN (IF ps = <<>> THEN {[s EXCEPT !.bars[i] = b]} ELSE {})
  ELSE IF Len(ps) \in allowed THEN WithId(s, i, b, ps) ELSE {}

OutputOk(s, b, e, first) ==
  \* (tqdm redraws its other terminal bars when one closes, hence the condition)
  /\ (b.quiet /\ (\A j \in 1..Len(s.bars) : ~s.bars[j].term) => ~e.err)
  /\ (b.nowidget => e.shown = 0)
  /\ (first /\ ~s.cfg.nb /\ ~b.off /\ ~b.delay /\ ~b.quiet => IF e.file THEN e.fil ELSE e.err)
  /\ (first /\ s.cfg.nb /\ ~b.off /\ ~b.delay /\ e.disp = "T" => e.shown = 1)

Update(s, i, k, ps) ==
  LET b == s.bars[i] IN
  IF ~Live(b) THEN Reports(s, i, b, ps, {0})
  ELSE LET m == Moved(b, k) a == Allowed(m)
           done == IF ps # <<>> \/ (b.rep = 0 /\ a = {1}) THEN [m EXCEPT !.lp = m.n] ELSE m
       IN Reports(s, i, done, ps, a)
Close(s, i, ps) ==
  LET b == s.bars[i] IN
  IF b.closed THEN Reports(s, i, b, ps, {0})
  ELSE LET c == [b EXCEPT !.closed = TRUE]
       IN Reports(s, i, c, ps, {1})
Create(s, e, ps) ==
  LET b == NewBar(s, e.c, e)
      s1 == [s EXCEPT !.bars = Append(@, b)]
      a == IF b.off THEN {0} ELSE IF b.delay THEN (IF s.cfg.nb THEN {0, 1} ELSE {0}) ELSE {1}
  IN IF OutputOk(s, b, e, TRUE) THEN Reports(s1, Len(s1.bars), b, ps, a) ELSE {}

\* Iterating over a bar: j items are completed, then it closes (unless disabled).
RECURSIVE Walk(_, _, _, _)
Walk(S, i, j, ps) ==
  IF j = 0 THEN {<<s, ps>> : s \in S}
  ELSE UNION {
     LET a == Allowed(Moved(s.bars[i], 1)) IN
     (IF 0 \in a \/ s.bars[i].rep = 0 THEN Walk(Update(s, i, 1, <<>>), i, j - 1, ps) ELSE {})
     \cup (IF 1 \in a /\ s.bars[i].rep # 0 /\ ps # <<>> THEN Walk(Update(s, i, 1, <<Head(ps)>>), i, j - 1, Tail(ps)) ELSE {})
     : s \in S}
Iterate(s, e) ==
  LET firsts == UNION {{<<x, SubSeq(e.reps, k + 1, Len(e.reps))>> : x \in Create(s, e, SubSeq(e.reps, 1, k))}
                       : k \in {x \in {0, 1} : x <= Len(e.reps)}}
      i == Len(s.bars) + 1
  IN UNION { IF f[1].bars[i].off THEN (IF f[2] = <<>> THEN {f[1]} ELSE {})
             ELSE UNION { Close(w[1], i, w[2]) : w \in Walk({f[1]}, i, e.items, f[2]) }
             : f \in firsts }

Step(s, e) ==
  IF e.r # "ok" THEN {}          \* nothing here ever raises, also when reporters do
  ELSE CASE
       e.op = "enter" -> {[s EXCEPT !.stk[e.c] = Append(@, e.v)]}
    [] e.op = "exit" -> {[s EXCEPT !.stk[e.c] = SubSeq(@, 1, Len(@) - 1)]}
    [] e.op = "thread" -> {[s EXCEPT !.stk = Append(@, <<>>), !.base = Append(@, 0)]}
    [] e.op = "copy" -> {[s EXCEPT !.stk = Append(@, <<>>), !.base = Append(@, Cur(s, e.c))]}
    [] e.op = "query" -> IF e.v = Cur(s, e.c) THEN {s} ELSE {}
    [] e.op = "bar" -> Create(s, e, e.reps)
    [] e.op = "iter" -> IF e.got = e.yielded THEN Iterate(s, e) ELSE {}
    [] e.op = "update" -> IF OutputOk(s, s.bars[e.b], e, FALSE) THEN Update(s, e.b, e.k, e.reps) ELSE {}
    [] e.op = "refresh" -> IF ~OutputOk(s, s.bars[e.b], e, FALSE) THEN {}
                           ELSE Reports(s, e.b, s.bars[e.b], e.reps, IF Live(s.bars[e.b]) THEN {1} ELSE {0})
    [] e.op = "desc" -> IF ~OutputOk(s, s.bars[e.b], e, FALSE) THEN {}
                        ELSE LET b == s.bars[e.b] IN
                        IF Live(b) THEN Reports(s, e.b, [b EXCEPT !.desc = e.desc \o ": "], e.reps, {1})
                        ELSE Reports(s, e.b, b, e.reps, {0})
    [] e.op = "close" -> IF OutputOk(s, s.bars[e.b], e, FALSE) THEN Close(s, e.b, e.reps) ELSE {}

-------------------------------------------------------------------------------
(* Design properties checked on the model (TqdmMC).                             *)
\* Every report of a step carries the reporter captured at construction; once
\* closed a bar never reports again; the final report has the final count.
===============================================================================
