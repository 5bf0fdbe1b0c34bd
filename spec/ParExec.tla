-------------------------------- MODULE ParExec --------------------------------
(* Executors: every scheduled task is run once, by a thread that serves the     *)
(* executor, inside the context guards of the executor and of the executors it  *)
(* is derived from (base first), with the executor as the current one.          *)
(*   E[e]  = [root, chain]: chain = <<<<e0, guard>>, ..>> from the root to e    *)
(*   T[k]  = [e, st]: task k on executor e, "q" waiting, "r" started, "d" done  *)
(*   A[a]  = the context of actor a: current executor, whether in a task,       *)
(*           cancellation context, and what its guards will restore             *)
(*   R[a]  = <<>> or <<[k, i, ph]>>: the task actor a is running, how many      *)
(*           guards are entered, and whether it is entering, in it or leaving   *)
(*   I[a]  = the operations actor a is in the middle of                         *)
EXTENDS Integers, Sequences, FiniteSets
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Idle == [cur |-> -1, task |-> 0, cx |-> -1, back |-> <<>>]
Empty == [E |-> <<>>, T |-> <<>>, A |-> <<>>, R |-> <<>>, I |-> <<>>, S |-> <<>>, q |-> FALSE, torn |-> FALSE]

Act(s, a) == Get(s.A, a, Idle)
Run(s, a) == Get(s.R, a, <<>>)
Root(s, e) == s.E[s.E[e].root.e].root
Guards(s, e) == SelectSeq(s.E[e].chain, LAMBDA p : p[2] >= 0)
Last(q) == q[Len(q)]

\* ---------------------------------------------------------------- operations
New(s, e, kind, limit, g) == [s EXCEPT !.E = Put(@, e, [root |-> [e |-> e, kind |-> kind, limit |-> limit, weak |-> FALSE], chain |-> <<<<e, g>>>>])]
Apply(s, o, th) ==
  LET a == o.a
      me == Act(s, th)
      Me(x) == [s EXCEPT !.A = Put(@, th, x)]
  IN
  CASE o.k = "pool" -> New(s, a[1], IF a[3] >= 0 THEN "weak" ELSE "pool", 0, -1)
    [] o.k = "poolg" -> New(s, a[1], IF a[3] >= 0 THEN "weak" ELSE "pool", 0, a[4])
    [] o.k = "eager" -> New(s, a[1], "eager", 0, -1)
    [] o.k = "asio" -> New(s, a[1], "asio", a[2], -1)
    [] o.k = "dflt" -> New(s, a[1], "default", 0, -1)
    [] o.k = "derive" -> [s EXCEPT !.E = Put(@, a[1], [root |-> s.E[a[2]].root, chain |-> Append(s.E[a[2]].chain, <<a[1], a[3]>>)])]
    [] o.k = "clearq" -> [s EXCEPT !.E[a[1]].root.kind = "weak"]
    [] o.k = "sched" -> [s EXCEPT !.T = Put(@, a[2], [e |-> a[1], st |-> "q", by |-> th])]
    [] o.k = "push" -> Me([me EXCEPT !.back = Append(@, me.cur), !.cur = a[1]])
    [] o.k = "pushd" -> Me([me EXCEPT !.back = Append(@, me.cur), !.cur = IF @ = -1 THEN CHOOSE e \in DOMAIN s.E : s.E[e].root.kind = "default" /\ Len(s.E[e].chain) = 1 ELSE @])
    [] o.k \in {"pop", "popd"} -> Me([me EXCEPT !.back = SubSeq(@, 1, Len(@) - 1), !.cur = Last(me.back)])
    [] o.k = "in" -> Me([me EXCEPT !.cx = a[1]])
    [] o.k = "smake" -> [s EXCEPT !.S = Put(@, a[1], a[2])]
    [] OTHER -> s
Result(s, o, r, th) ==
  LET me == Act(s, th)
      ok(b) == IF b THEN {s} ELSE {}
  IN
  CASE o.k = "cur" -> ok(r = <<me.cur, me.task>>)
    \* Whoever schedules on the immediate executor has the task done when it returns.
    [] o.k = "sched" -> ok(Root(s, o.a[1]).kind # "eager" \/ s.T[o.a[2]].st = "d")
    [] o.k = "sw" -> ok(r = IF me.task = 1 THEN <<2, 3>> ELSE <<1, s.S[o.a[1]]>>)
    [] o.k = "dflt" -> ok(r = <<1>>)
    [] OTHER -> {s}

\* ---------------------------------------------------------------- tasks
\* Whether actor a may start task k now.
Open(s, a) == Get(s.I, a, <<>>)
InSched(s, a, k) == Open(s, a) # <<>> /\ Last(Open(s, a)).k = "sched" /\ Last(Open(s, a)).a[2] = k
Running(s, e) == {a \in DOMAIN s.R : s.R[a] # <<>> /\ Root(s, s.T[s.R[a][1].k].e).e = e}
MayStart(s, a, k) ==
  /\ s.T[k].st = "q"
  /\ Run(s, a) = <<>>
  /\ LET root == Root(s, s.T[k].e) IN
     IF root.kind = "eager" THEN s.T[k].by = a /\ InSched(s, a, k)
     ELSE /\ Open(s, a) = <<>>
          /\ a < 100
          /\ root.limit > 0 => Cardinality(Running(s, root.e)) < root.limit
Begin(s, a, k) == [s EXCEPT !.T[k].st = "r", !.R = Put(@, a, <<[k |-> k, i |-> 0, ph |-> "in"]>>)]
\* The states in which actor a is entering a task: the one it is in, or one it starts now.
Entering(s, a) ==
  IF Run(s, a) # <<>> THEN (IF Run(s, a)[1].ph = "in" THEN {s} ELSE {})
  ELSE {Begin(s, a, k) : k \in {k \in DOMAIN s.T : MayStart(s, a, k)}}
GEnter(s, e) ==
  LET in(x) == LET f == Run(x, e.th)[1]
                   g == Guards(x, x.T[f.k].e)
               IN IF f.i < Len(g) /\ g[f.i + 1] = <<e.ex, e.id>> THEN {[x EXCEPT !.R[e.th][1].i = @ + 1]} ELSE {}
  IN UNION {in(x) : x \in Entering(s, e.th)}
Task(s, e) ==
  LET in(x) == LET f == Run(x, e.th)[1] IN
               IF f.k = e.k /\ f.i = Len(Guards(x, x.T[f.k].e)) /\ e.ex = x.T[f.k].e /\ e.it = 1 /\ e.cx = Act(x, e.th).cx
               THEN {[x EXCEPT !.R[e.th][1].ph = "body",
                              !.A = Put(@, 100 + e.k, [cur |-> e.ex, task |-> 1, cx |-> e.cx, back |-> <<>>])]}
               ELSE {}
  IN UNION {in(x) : x \in Entering(s, e.th)}
Leave(s, a) == IF s.R[a][1].i = 0 THEN [s EXCEPT !.T[s.R[a][1].k].st = "d", !.R[a] = <<>>] ELSE s
TEnd(s, e) ==
  IF Run(s, e.th) = <<>> THEN {}
  ELSE LET f == Run(s, e.th)[1] IN
       IF f.ph = "body" /\ f.k = e.k /\ e.ex = s.T[f.k].e /\ e.it = 1 /\ e.cx = Act(s, e.th).cx /\ Run(s, 100 + e.k) = <<>> /\ Open(s, 100 + e.k) = <<>>
       THEN {Leave([s EXCEPT !.R[e.th][1].ph = "out"], e.th)} ELSE {}
GExit(s, e) ==
  IF Run(s, e.th) = <<>> THEN {}
  ELSE LET f == Run(s, e.th)[1]
           g == Guards(s, s.T[f.k].e)
       IN IF f.ph = "out" /\ f.i > 0 /\ g[f.i] = <<e.ex, e.id>> THEN {Leave([s EXCEPT !.R[e.th][1].i = @ - 1], e.th)} ELSE {}

\* Only an executor that shuts down discards tasks.
AllDone(s) == /\ \A a \in DOMAIN s.R : s.R[a] = <<>>
              /\ \A k \in DOMAIN s.T : s.T[k].st = "d" \/ (s.T[k].st = "q" /\ Root(s, s.T[k].e).kind = "weak")
Step(s, e) ==
  IF s.torn THEN (IF e.e = "end" /\ e.live = 0 THEN {s} ELSE {}) ELSE
  CASE e.e = "inv" -> {Apply([s EXCEPT !.I = Put(@, e.th, Append(Open(s, e.th), e.o))], e.o, e.th)}
    [] e.e = "res" -> IF Run(s, e.th) # <<>> THEN {}
                      ELSE Result([s EXCEPT !.I[e.th] = SubSeq(@, 1, Len(@) - 1)], e.o, e.r, e.th)
    [] e.e = "op" -> Result(Apply(s, e.o, e.th), e.o, e.r, e.th)
    [] e.e = "genter" -> GEnter(s, e)
    [] e.e = "gexit" -> GExit(s, e)
    [] e.e = "task" -> Task(s, e)
    [] e.e = "tend" -> TEnd(s, e)
    [] e.e = "start" -> {s}
    [] e.e = "quiet" -> IF AllDone(s) THEN {s} ELSE {}
    [] e.e = "tear" -> IF AllDone(s) THEN {[s EXCEPT !.torn = TRUE]} ELSE {}
    [] OTHER -> {}
================================================================================
