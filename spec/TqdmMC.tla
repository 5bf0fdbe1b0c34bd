-------------------------------- MODULE TqdmMC --------------------------------
(* Generator and design check: the environment produces the reports itself by   *)
(* choosing any report list that the specification accepts for the call, so TLC *)
(* explores every permitted reporting behaviour of every call sequence.         *)
EXTENDS Tqdm, Json
CONSTANTS Gen, MaxBars, MaxCtx, MaxN, Depth
VARIABLES s, hist, log
Cfg == [nb |-> FALSE, reps |-> <<[mi |-> 0, ms |-> 1, sf |-> TRUE, sd |-> TRUE],
                                 [mi |-> 1, ms |-> -1, sf |-> TRUE, sd |-> TRUE]>>]
Kinds == {[op |-> "bar", c |-> 1, init |-> 0, total |-> 2, mi |-> 2, ms |-> -1, leave |-> lv, off |-> of,
           desc |-> "d", unit |-> "it", delay |-> FALSE, file |-> FALSE, disp |-> "unset"] : lv \in BOOLEAN, of \in BOOLEAN}
Calls(x) ==
     {[op |-> "enter", c |-> c, v |-> v] : c \in {d \in 1..Len(x.stk) : Len(x.stk[d]) < 2}, v \in {0, 1, 2}}
  \cup {[op |-> "exit", c |-> c, exc |-> FALSE] : c \in {d \in 1..Len(x.stk) : x.stk[d] # <<>>}}
  \cup (IF Len(x.stk) < MaxCtx THEN {[op |-> "copy", c |-> 1], [op |-> "thread", c |-> 1]} ELSE {})
  \cup (IF Len(x.bars) < MaxBars THEN {[k EXCEPT !.c = c] : k \in Kinds, c \in 1..Len(x.stk)} ELSE {})
  \cup {[op |-> "update", b |-> b, k |-> 1] : b \in {i \in 1..Len(x.bars) : x.bars[i].n < MaxN}}
  \cup {[op |-> "close", b |-> b] : b \in 1..Len(x.bars)}
\* A well-formed report of bar b in its state after the call
Rep(i, b) == [rep |-> b.rep, bar |-> i, n |-> b.n, total |-> b.total, closed |-> b.closed,
              disp |-> (~b.closed \/ b.leave) /\ ~b.off, desc |-> b.desc, unit |-> b.unit, init |-> b.init,
              elapsed_ok |-> TRUE]
After(x, o) == IF o.op = "bar" THEN NewBar(x, o.c, o)
               ELSE IF o.op = "update" THEN (IF Live(x.bars[o.b]) THEN Moved(x.bars[o.b], o.k) ELSE x.bars[o.b])
               ELSE [x.bars[o.b] EXCEPT !.closed = TRUE]
Outs(x, o) == IF o.op \in {"bar", "update", "close"}
              THEN LET i == IF o.op = "bar" THEN Len(x.bars) + 1 ELSE o.b
                   IN {<<>>, <<Rep(i, After(x, o))>>, <<Rep(i, After(x, o)), Rep(i, After(x, o))>>}
              ELSE {<<>>}
Ev(o, ps) == o @@ [r |-> "ok", reps |-> ps, err |-> FALSE, fil |-> FALSE, shown |-> 0]
EvC(x, o, ps) == IF o.op = "bar" /\ Cur(x, o.c) = 0 THEN [Ev(o, ps) EXCEPT !.err = TRUE] ELSE Ev(o, ps)
Init == s = S0(Cfg) /\ hist = <<>> /\ log = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Calls(s) : \E ps \in Outs(s, o) : \E s2 \in Step(s, EvC(s, o, ps)) :
             s' = s2 /\ hist' = Append(hist, o) /\ log' = log \o ps
View == <<s, IF Gen THEN <<>> ELSE log>>
Emit == Gen => PrintT("GEN" \o ToJson(hist'))
Captured == \A i \in 1..Len(log) : log[i].rep # 0 /\ log[i].rep = s.bars[log[i].bar].rep
FinalOnce == \A b \in 1..Len(s.bars) :
    LET f == {i \in 1..Len(log) : log[i].bar = b /\ log[i].closed} IN
    /\ Cardinality(f) = (IF s.bars[b].closed /\ s.bars[b].rep # 0 THEN 1 ELSE 0)
    /\ \A i \in f : log[i].n = s.bars[b].n
                    /\ \A j \in 1..Len(log) : log[j].bar = b => j <= i
OffNeverShown == \A i \in 1..Len(log) : s.bars[log[i].bar].off => ~log[i].disp
===============================================================================
