-------------------------------- MODULE ParFlow --------------------------------
(* Streams computed from other streams.  A program defines streams (sources     *)
(* that it writes, and combinations of streams), and drains: consumers that     *)
(* record every item they are given (`out') and the closing status (`oend').    *)
(* Effects of an operation count from its invocation on; what a drain has been  *)
(* given so far must be explained by them, and when nothing runs any more the   *)
(* drains have been given everything.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Empty == [S |-> <<>>,   \* streams
          W |-> <<>>,   \* writers, chains and interleavings: the stream they feed
          C |-> <<>>,
          U |-> <<>>,   \* futures and
          V |-> <<>>,   \* their writers
          O |-> <<>>,   \* what anybody has seen of a stream: items, end, and (merged streams) a position per part
          Q |-> <<>>,   \* what anybody has seen of a future
          D |-> <<>>,   \* drains: stream, items given, whether the end was given
          M |-> <<>>,   \* consumers of futures: future, whether called
          K |-> <<>>,   \* functor calls made for a stream (a future)
          E |-> <<>>,   \* executors: whether they may discard tasks, the executor they use
          X |-> <<>>,   \* cancellation contexts: the codes they may have been cancelled with, whether that is settled,
                       \* whether other threads were running
          B |-> <<>>,   \* the context every thread is in
          P |-> <<>>,   \* threads that look at a future or wait: whether it was certainly set when they began
          T |-> <<>>,   \* tables of the functors
          busy |-> FALSE,  \* the threads of the program run
          q |-> FALSE,  \* nothing runs any more
          torn |-> FALSE]  \* the program is over and its objects are being destroyed
Src == [k |-> "src", log |-> <<>>, end |-> <<>>]
SPart(i) == [k |-> "s", v |-> i]
VPart(v) == [k |-> "v", v |-> v]
EPart(c) == [k |-> "e", v |-> c]

RECURSIVE N(_, _), ChainF(_, _, _, _), FV(_, _)
F(s, i) == N(s, i)
NoCalls(log, end) == [log |-> log, end |-> end, calls |-> <<>>]
\* The parts of a combination, and whether no more can come.
Parts(s, i) ==
  LET n == s.S[i] IN
  IF n.k \in {"chain", "il"} THEN [p |-> n.parts, drop |-> n.drop]
  ELSE LET f == F(s, n.src)                   \* a stream of streams
           q == [k \in 1..Len(f.log) |-> SPart(f.log[k])]
       IN [p |-> IF f.end # <<>> /\ f.end[1] # 0 THEN Append(q, EPart(f.end[1])) ELSE q, drop |-> f.end # <<>>]
PartF(s, p) == IF p.k = "s" THEN F(s, p.v) ELSE IF p.k = "v" THEN NoCalls(<<p.v>>, <<0>>) ELSE NoCalls(<<>>, <<p.v>>)
\* Concatenation: up to the first part that has not ended or has ended with an error.
ChainF(s, ps, drop, acc) ==
  IF ps = <<>> THEN NoCalls(acc, IF drop THEN <<0>> ELSE <<>>)
  ELSE LET f == PartF(s, Head(ps))
       IN IF f.end = <<0>> THEN ChainF(s, Tail(ps), drop, acc \o f.log)
          ELSE NoCalls(acc \o f.log, f.end)

\* ------------------------------------------------------------ functions on streams
\* The functors of the driver are tables: what functor t does with v.
Tab(s, t, v, else) == IF v \in 0..9 THEN s.T[t + 1][v + 1] ELSE else
\* The outcome of mapping v: <<1, result>> or <<2, code>>.
MapV(s, t, v) == LET c == Tab(s, t, v, -9) IN IF c >= 0 THEN <<1, c>> ELSE IF c = -1 THEN <<2, 200 + v>> ELSE <<2, 3>>
\* An ordered map: the results up to the first failing item.
MapF(s, n) ==
  LET f == F(s, n.src)
      bad == {j \in 1..Len(f.log) : MapV(s, n.tab, f.log[j])[1] = 2}
      j0 == CHOOSE j \in bad : \A k \in bad : j <= k
      m == IF bad = {} THEN Len(f.log) ELSE j0 - 1
  IN NoCalls([j \in 1..m |-> MapV(s, n.tab, f.log[j])[2]], IF bad = {} THEN f.end ELSE <<MapV(s, n.tab, f.log[j0])[2]>>)
\* A reduction: nothing until the input ends.
RECURSIVE Fold(_, _, _, _, _)
Fold(s, n, f, acc, calls) ==
  LET j == Len(calls) + 1 IN
  IF j > Len(f.log)
  THEN IF f.end = <<0>> THEN [log |-> <<acc>>, end |-> <<0>>, calls |-> calls] ELSE [log |-> <<>>, end |-> f.end, calls |-> calls]
  ELSE LET v == f.log[j]
           c == Tab(s, n.tab, v, -9)
           cs == Append(calls, [f |-> "red", a |-> <<acc, v>>])
       IN IF c >= 0 THEN Fold(s, n, f, (acc * 3 + c) % 1009, cs)
          ELSE [log |-> <<>>, end |-> IF c = -1 THEN <<200 + v>> ELSE <<3>>, calls |-> cs]
\* Concatenation and stacking of slices (codes: rank * 1000 + 1000 + digits); the slice handed out is seen as a number.
RECURSIVE Digits(_), HashOf(_, _)
Digits(x) == IF x = 0 THEN <<>> ELSE <<x % 10>> \o Digits(x \div 10)
Rank(c) == IF c < 1000 THEN 0 ELSE (c \div 1000) - 1
ItemsOf(c) == IF Rank(c) = 0 THEN <<c % 1000>> ELSE Digits(c % 1000)
HashOf(h, q) == IF q = <<>> THEN h ELSE HashOf(((h * 31) + Head(q)) % 99991, Tail(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
SliceF(s, n) ==
  LET f == F(s, n.src)
      all == <<n.init>> \o f.log
      off == \E j \in 1..Len(f.log) : Rank(f.log[j]) # Rank(n.init)
      items == Flat([j \in 1..Len(all) |-> ItemsOf(all[j])])
      r == Rank(n.init) + (IF n.stack THEN 1 ELSE 0)
  IN IF off THEN NoCalls(<<>>, <<3>>)
     ELSE IF f.end # <<0>> THEN NoCalls(<<>>, f.end)
     ELSE IF \E j \in 1..Len(items) : items[j] = 9 THEN NoCalls(<<>>, <<700>>)
     ELSE NoCalls(<<HashOf(r, Append(items, 100 + n.ndim))>>, <<0>>)

\* Loops.  A body (and a finalizer) assigns the state variable x and the output variable.
Upd(n, c, x, r, v) ==
  LET nx == (x + 1) % 10
      nr == IF n.yields THEN (10 * x) + v ELSE ((r * 3) + v) % 97
      ok(x1, r1, out) == [ok |-> TRUE, x |-> x1, r |-> r1, out |-> out]
      err(e) == [ok |-> FALSE, e |-> e]
  IN CASE c \in {0, 8} -> ok(nx, nr, TRUE)
       [] c = 1 -> ok(nx, r, FALSE)
       [] c = 2 -> ok(x, nr, TRUE)
       [] c = 3 -> ok(x, r, FALSE)
       [] c = 4 -> err(200 + v)
       [] OTHER -> err(3)
CondV(c) == IF c \in {0, 9} THEN "t" ELSE IF c \in {1, 2} THEN "f" ELSE "bad"
\* The condition: "t", "f", "bad" (an error), "wait".
Cond(s, n, x) ==
  IF n.ct < 0 THEN [k |-> "t"]
  ELSE LET c == Tab(s, n.ct, x, 1) IN
       IF c = 4 THEN [k |-> "bad", e |-> 300 + x]
       ELSE IF c < 10 THEN IF CondV(c) = "bad" THEN [k |-> "bad", e |-> 3] ELSE [k |-> CondV(c)]
       ELSE IF Get(s.S[c - 10], "type", 0) # 1 THEN [k |-> "bad", e |-> 3]
       ELSE LET f == F(s, c - 10)
            IN IF f.log # <<>> THEN (IF CondV(f.log[1]) = "bad" THEN [k |-> "bad", e |-> 3] ELSE [k |-> CondV(f.log[1])])
               ELSE IF f.end = <<>> THEN [k |-> "wait"]
               ELSE [k |-> "bad", e |-> IF f.end = <<0>> THEN 3 ELSE f.end[1]]
RECURSIVE Loop(_, _, _, _, _, _, _, _)
\* At the condition (at = "c") or past it ("i"), with k items consumed.
Loop(s, n, at, x, r, k, log, calls) ==
  LET Ret(end, lg, cs) == [log |-> lg, end |-> end, calls |-> cs]
      good(r1, lg, cs) == IF n.yields THEN Ret(<<0>>, lg, cs) ELSE Ret(<<0>>, <<r1>>, cs)
      vars == IF n.yields THEN <<x, -1>> ELSE <<x, r>>
      nv == IF n.yields THEN 1 ELSE 2
  IN IF at = "c"
     THEN LET c == Cond(s, n, x)
              cs == IF n.ct < 0 THEN calls ELSE Append(calls, [f |-> "cond", a |-> vars \o <<nv, nv>>])
          IN CASE c.k = "t" -> Loop(s, n, "i", x, r, k, log, cs)
               [] c.k = "f" -> good(r, log, cs)
               [] c.k = "wait" -> Ret(<<>>, log, cs)
               [] OTHER -> Ret(<<c.e>>, log, cs)
     ELSE LET f == IF n.for THEN F(s, n.src) ELSE [log |-> <<>>, end |-> <<>>]
              body == ~n.for \/ k < Len(f.log)
              fin == ~body /\ f.end = <<0>>
          IN IF ~body /\ f.end # <<0>> THEN Ret(f.end, log, calls)
             ELSE IF fin /\ n.ft < 0 THEN good(r, log, calls)
             ELSE LET v == IF fin THEN 50 ELSE IF n.for THEN f.log[k + 1] ELSE x
                      cs == Append(calls, [f |-> IF fin THEN "fin" ELSE "body",
                                           a |-> IF fin THEN vars \o <<nv, nv>> ELSE <<v>> \o vars \o <<IF n.for THEN nv + 1 ELSE nv, nv>>])
                      u == Upd(n, IF fin THEN Tab(s, n.ft, x, 3) ELSE Tab(s, n.bt, v, 3), x, r, v)
                      lg == IF u.ok THEN (IF n.yields /\ u.out THEN Append(log, u.r) ELSE log) ELSE log
                  IN IF ~u.ok THEN Ret(<<u.e>>, log, cs)
                     ELSE IF fin THEN good(u.r, lg, cs)
                     ELSE Loop(s, n, "c", u.x, u.r, k + 1, lg, cs)
LoopF(s, n) == Loop(s, n, "c", n.x, n.r, 0, IF n.yields THEN <<n.r>> ELSE <<>>, <<>>)

\* ------------------------------------------------------------ futures and calls
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
\* The value of a future: <<1, v>>, <<2, code>> or <<>>.
FVal(s, i) == LET q == Get(s.Q, i, <<>>) IN
              IF q # <<>> THEN q ELSE LET v == FV(s, i) IN IF Cardinality(v) = 1 THEN CHOOSE x \in v : TRUE ELSE <<>>
\* What a stream that must have exactly one item comes to.
One(f) == IF Len(f.log) >= 2 THEN <<2, 3>> ELSE IF f.end = <<>> THEN <<>> ELSE IF f.end # <<0>> THEN <<2, f.end[1]>>
          ELSE IF f.log = <<>> THEN <<2, 3>> ELSE <<1, f.log[1]>>
Arg(s, t, v) == CASE t \in {0, 5} -> <<1, v>>
                  [] t = 1 -> <<1, -21>>
                  [] t = 4 -> <<1, -22>>
                  [] t = 2 -> One(F(s, v))
                  [] t = 3 -> FVal(s, v)
RECURSIVE CallF(_, _, _)
\* A call awaits its arguments one after the other.
CallF(s, n, got) ==
  LET j == Len(got) + 1 IN
  IF j <= Len(n.args)
  THEN LET x == Arg(s, n.args[j][1], n.args[j][2])
       IN IF x = <<>> THEN NoCalls(<<>>, <<>>) ELSE IF x[1] = 2 THEN NoCalls(<<>>, <<x[2]>>) ELSE CallF(s, n, Append(got, x[2]))
  ELSE LET cs == <<[f |-> "call", a |-> got]>>
           r == CASE n.mode = 0 -> [log |-> <<(Sum(got) + n.m) % 1009>>, end |-> <<0>>]
                  [] n.mode = 1 -> LET f == F(s, n.m) IN [log |-> f.log, end |-> f.end]
                  [] n.mode = 2 -> [log |-> <<>>, end |-> <<400 + n.m>>]
                  [] OTHER -> [log |-> <<>>, end |-> <<3>>]
       IN [log |-> r.log, end |-> r.end, calls |-> cs]
AevArgs(s, n) == [j \in 1..Len(n.args) |-> IF n.args[j][1] \in {3, 4} THEN FVal(s, n.args[j][2]) ELSE <<1, IF n.args[j][1] = 1 THEN -21 ELSE n.args[j][2]>>]
AevCalls(s, n) == LET a == AevArgs(s, n)
                  IN IF \A j \in 1..Len(a) : a[j] # <<>> /\ a[j][1] = 1 THEN <<[f |-> "aev", a |-> [j \in 1..Len(a) |-> a[j][2]]]>> ELSE <<>>
\* The outcomes a future may have (several only if several inputs of an evaluation fail).
FV(s, i) ==
  LET n == s.U[i] IN
  CASE n.k = "w" -> IF n.v = <<>> THEN {} ELSE {n.v}
    [] n.k = "fsv" -> LET x == One(F(s, n.src)) IN IF x = <<>> THEN {} ELSE {x}
    [] n.k = "fit" -> LET f == F(s, n.src) IN IF f.end = <<>> THEN {} ELSE IF f.end # <<0>> THEN {<<2, f.end[1]>>} ELSE {<<1, HashOf(Len(f.log), f.log)>>}
    [] n.k = "uff" -> LET x == FVal(s, n.src) IN IF x = <<>> THEN {} ELSE IF x[1] = 2 THEN {x} ELSE LET y == FVal(s, x[2]) IN IF y = <<>> THEN {} ELSE {y}
    [] n.k = "aev" -> LET a == AevArgs(s, n)
                          bad == {a[j] : j \in {j \in 1..Len(a) : a[j] # <<>> /\ a[j][1] = 2}}
                          c == AevCalls(s, n)
                      IN IF bad # {} THEN bad
                         ELSE IF c = <<>> THEN {}
                         ELSE IF n.mode = 0 THEN {<<1, (Sum(c[1].a) + n.m) % 1009>>} ELSE IF n.mode = 1 THEN {<<1, n.m>>} ELSE {<<2, 400 + n.m>>}
\* Contents of a stream whose items come in a determined order, and the functor calls made for it.
N(s, i) ==
  LET n == s.S[i] IN
  CASE n.k = "src" -> NoCalls(n.log, n.end)
    [] n.k \in {"chain", "cfs"} -> LET p == Parts(s, i) IN ChainF(s, p.p, p.drop, <<>>)
    [] n.k = "map" -> MapF(s, n)
    [] n.k = "red" -> Fold(s, n, F(s, n.src), n.init, <<>>)
    [] n.k = "slice" -> SliceF(s, n)
    [] n.k = "loop" -> LoopF(s, n)
    [] n.k = "call" -> CallF(s, n, <<>>)
    [] n.k = "sff" -> LET x == FVal(s, n.src) IN IF x = <<>> THEN NoCalls(<<>>, <<>>) ELSE IF x[1] = 1 THEN NoCalls(<<x[2]>>, <<0>>) ELSE NoCalls(<<>>, <<x[2]>>)
    [] n.k = "ufs" -> LET x == FVal(s, n.src) IN IF x = <<>> THEN NoCalls(<<>>, <<>>) ELSE IF x[1] = 1 THEN NoCalls(F(s, x[2]).log, F(s, x[2]).end) ELSE NoCalls(<<>>, <<x[2]>>)
RECURSIVE Weak(_, _)
Weak(s, e) == s.E[e].weak \/ (s.E[e].base >= 0 /\ Weak(s, s.E[e].base))
Merged(s, i) == s.S[i].k \in {"il", "ilfs"}

Unordered(s, i) == s.S[i].k = "umap"
\* Functions run on an executor, in the cancellation context of the thread that started them.
Runs(n) == n.k \in {"map", "umap", "red", "slice", "loop", "call", "aev"}
Cut(s, n) == (IF Runs(n) /\ Weak(s, n.e) THEN {100} ELSE {})
             \cup (IF Runs(n) /\ n.k # "aev" /\ n.cx >= 0 /\ s.X[n.cx].c # {}
                   \* A routine that finds itself cancelled while the cancellation is under way may also just be abandoned.
                   THEN s.X[n.cx].c \cup (IF s.X[n.cx].busy /\ n.k \notin {"map", "umap"} THEN {100} ELSE {}) ELSE {})

\* A context that was seen cancelled with c was not cancelled with anything else.
Reason(s, n, c) == IF Runs(n) /\ n.cx >= 0 /\ c \in s.X[n.cx].c
                   THEN {[s EXCEPT !.X[n.cx].c = {c}, !.X[n.cx].set = TRUE]} ELSE {s}

\* ------------------------------------------------------------ operations
Add(s, c, p) == [s EXCEPT !.S[c].parts = Append(@, p)]
RECURSIVE Pairs(_)
Pairs(q) == IF Len(q) < 2 THEN <<>> ELSE <<<<q[1], q[2]>>>> \o Pairs(SubSeq(q, 3, Len(q)))
\* A future that certainly has its value; a source that is certainly complete.
SureV(s, f) == Get(s.Q, f, <<>>) # <<>> \/ Get(s.U[f], "sure", FALSE) \/ (s.q /\ FV(s, f) # {})
SureS(s, st) == Get(s.S[st], "sure", FALSE)
Apply(s, o, th) ==
  LET a == o.a
      cx == Get(s.B, th, -1)
      New(n) == [s EXCEPT !.S = Put(@, a[1], n)]
      Fut(n) == [s EXCEPT !.U = Put(@, a[1], n)]
  IN
  CASE o.k = "mk" -> [s EXCEPT !.S = Put(@, a[1], IF Len(a) > 3 THEN Src @@ [type |-> a[4]] ELSE Src), !.W = Put(@, a[2], a[1])]
    [] o.k = "wr" -> [s EXCEPT !.S[s.W[a[1]]].log = Append(@, a[2])]
    [] o.k = "cl" -> [s EXCEPT !.S[s.W[a[1]]].end = <<a[2]>>]
    [] o.k = "dw" -> [s EXCEPT !.S[s.W[a[1]]].end = <<100>>]
    [] o.k = "drain" -> [s EXCEPT !.D = Put(@, a[2], [st |-> a[1], pos |-> 0, done |-> FALSE])]
    [] o.k \in {"chain", "il"} -> [s EXCEPT !.C = Put(@, a[1], s.W[a[2]]),
                                            !.S = Put(@, s.W[a[2]], [k |-> o.k, parts |-> <<>>, drop |-> FALSE, held |-> TRUE])]
    [] o.k \in {"cadd", "iadd"} -> Add(s, s.C[a[1]], SPart(a[2]))
    [] o.k \in {"citem", "iitem"} -> Add(s, s.C[a[1]], VPart(a[2]))
    [] o.k \in {"cerr", "ierr"} -> Add(s, s.C[a[1]], EPart(a[2]))
    [] o.k \in {"cdrop", "idrop"} -> [s EXCEPT !.S[s.C[a[1]]].drop = TRUE]
    [] o.k \in {"opchain", "opil"} ->
         New([k |-> IF o.k = "opchain" THEN "chain" ELSE "il", parts |-> [j \in 1..(Len(a) - 1) |-> SPart(a[j + 1])], drop |-> TRUE, held |-> TRUE])
    [] o.k = "chainfs" -> New([k |-> "cfs", src |-> a[2]])
    [] o.k = "ilfs" -> New([k |-> "ilfs", src |-> a[2]])
    [] o.k \in {"smake", "siter"} -> New([k |-> "src", log |-> SubSeq(a, 2, Len(a)), end |-> <<0>>, sure |-> TRUE])
    \* executors, contexts
    [] o.k \in {"pool", "poolg"} -> [s EXCEPT !.E = Put(@, a[1], [weak |-> a[3] >= 0, base |-> -1])]
    [] o.k = "eager" -> [s EXCEPT !.E = Put(@, a[1], [weak |-> FALSE, base |-> -1])]
    [] o.k = "derive" -> [s EXCEPT !.E = Put(@, a[1], [weak |-> FALSE, base |-> a[2]])]
    [] o.k = "clearq" -> [s EXCEPT !.E[a[1]].weak = TRUE]
    [] o.k = "ctx" -> [s EXCEPT !.X = Put(@, a[1], [c |-> {}, set |-> FALSE, busy |-> FALSE])]
    [] o.k = "cancel" -> [s EXCEPT !.X[a[1]].c = IF s.X[a[1]].set THEN @ ELSE @ \cup {a[2]}, !.X[a[1]].busy = @ \/ s.busy]
    [] o.k = "in" -> [s EXCEPT !.B = Put(@, th, a[1])]
    \* functions
    [] o.k = "map" -> New([k |-> IF a[5] = 1 THEN "map" ELSE "umap", e |-> a[2], src |-> a[3], tab |-> a[4], cx |-> cx])
    [] o.k = "red" -> New([k |-> "red", e |-> a[2], src |-> a[3], tab |-> a[4], init |-> a[5], cx |-> cx])
    [] o.k \in {"redc", "reds"} -> New([k |-> "slice", stack |-> o.k = "reds", e |-> a[2], src |-> a[3], ndim |-> a[4], init |-> a[5], cx |-> cx])
    [] o.k \in {"for", "whl"} -> New([k |-> "loop", for |-> o.k = "for", e |-> a[2], src |-> a[3], bt |-> a[4], ft |-> a[5], ct |-> a[6], x |-> a[7], r |-> a[8], yields |-> a[9] = 1, cx |-> cx])
    [] o.k = "call" -> New([k |-> "call", e |-> a[2], mode |-> a[3], m |-> a[4], args |-> Pairs(SubSeq(a, 5, Len(a))), cx |-> cx])
    [] o.k = "aev" -> Fut([k |-> "aev", e |-> a[2], mode |-> a[3], m |-> a[4], args |-> Pairs(SubSeq(a, 5, Len(a))), cx |-> cx])
    \* futures
    [] o.k = "fmk" -> [s EXCEPT !.U = Put(@, a[1], [k |-> "w", v |-> <<>>, sure |-> FALSE]), !.V = Put(@, a[2], a[1])]
    [] o.k = "fset" -> [s EXCEPT !.U[s.V[a[1]]].v = <<1, a[2]>>]
    [] o.k = "ferr" -> [s EXCEPT !.U[s.V[a[1]]].v = <<2, a[2]>>]
    [] o.k = "fdw" -> [s EXCEPT !.U[s.V[a[1]]].v = <<2, 100>>]
    [] o.k = "fa" -> [s EXCEPT !.M = Put(@, a[2], [f |-> a[1], done |-> FALSE])]
    [] o.k = "fp" -> [s EXCEPT !.P = Put(@, th, SureV(s, a[1]))]
    [] o.k \in {"ubw", "sw"} -> [s EXCEPT !.P = Put(@, th, SureS(s, a[1]))]
    [] o.k \in {"ubwf", "swf"} -> [s EXCEPT !.P = Put(@, th, SureV(s, a[1]))]
    [] o.k \in {"sff", "opsff"} -> New([k |-> "sff", src |-> a[2]])
    [] o.k = "ufs" -> New([k |-> "ufs", src |-> a[2]])
    [] o.k \in {"fsv", "fit", "uff"} -> Fut([k |-> o.k, src |-> a[2]])
    [] o.k = "asf" -> Fut([k |-> "w", v |-> <<1, a[2]>>, sure |-> TRUE])
    [] OTHER -> s
\* The results of operations that are determined, and the states after them.
Sets(s, o) == IF o.k = "cancel" THEN {[s EXCEPT !.X[o.a[1]].set = TRUE]} ELSE IF o.k \in {"fset", "ferr", "fdw"} THEN {[s EXCEPT !.U[s.V[o.a[1]]].sure = TRUE]}
              ELSE IF o.k \in {"cl", "dw"} /\ s.S[s.W[o.a[1]]].k = "src" THEN {[s EXCEPT !.S[s.W[o.a[1]]] = ("sure" :> TRUE) @@ @]} ELSE {s}
See(s, f, r) == IF Get(s.Q, f, <<>>) # <<>> THEN (IF s.Q[f] = r THEN {s} ELSE {})
                ELSE IF r \in FV(s, f) \/ (Cut(s, s.U[f]) # {} /\ r[1] = 2 /\ r[2] \in Cut(s, s.U[f])) THEN {[s EXCEPT !.Q = Put(@, f, r)]} ELSE {}
\* The outcome of waiting: of the one item a stream must have or of a future, or that the waiting thread was cancelled,
\* unless everything was there when the wait began.
Stopped(s, r, th) ==
  LET x == Get(s.B, th, -1) IN
  IF x >= 0 /\ ~s.P[th] /\ r[1] = 2 /\ r[2] \in s.X[x].c THEN {[s EXCEPT !.X[x].c = {r[2]}, !.X[x].set = TRUE]} ELSE {}
Waited(s, st, r) ==
  LET n == s.S[st] IN
  (IF r = One(F(s, st)) THEN {s} ELSE {})
  \cup (IF r[1] = 2 /\ r[2] \in Cut(s, n) THEN Reason(s, n, r[2]) ELSE {})
Result(s, o, r, th) ==
  LET is(b) == IF b THEN {s} ELSE {} IN
  CASE o.k \in {"opchain", "opil", "chainfs", "ilfs", "smake", "siter", "opsff", "fsv", "fit", "asf", "uff", "ufs", "call", "aev"} -> is(r = <<1>>)
    [] o.k \in {"for", "whl"} -> is(r = <<1>>)
    [] o.k \in {"redc", "reds"} ->
         LET n == s.S[o.a[1]]
             bad == n.ndim > Rank(n.init) \/ n.ndim < (IF n.stack THEN 0 ELSE 1) \/ Get(s.S[n.src], "type", 0) # 1
         IN is(r = IF bad THEN <<2, 3>> ELSE <<1>>)
    [] o.k = "corph" -> LET f == F(s, s.C[o.a[1]])
                        IN is((r = <<1>> => f.end # <<>>) /\ (s.q /\ f.end # <<>> => r = <<1>>))
    [] o.k = "fp" -> IF r = <<0>> THEN is(~s.P[th]) ELSE See(s, o.a[1], r)
    [] o.k \in {"ubw", "sw"} -> IF r = <<>> THEN {} ELSE Waited(s, o.a[1], r) \cup Stopped(s, r, th)
    [] o.k \in {"ubwf", "swf"} -> IF r = <<>> THEN {} ELSE See(s, o.a[1], r) \cup Stopped(s, r, th)
    [] OTHER -> Sets(s, o)

\* ------------------------------------------------------------ what is seen
Seen(s, st) == Get(s.O, st, [log |-> <<>>, end |-> <<>>, cur |-> <<>>])
Cur(b, j) == IF j <= Len(b.cur) THEN b.cur[j] ELSE 0
\* The parts whose next item is v.
Givers(s, b, ps, v) == {j \in 1..Len(ps) : LET f == PartF(s, ps[j]) IN Cur(b, j) < Len(f.log) /\ f.log[Cur(b, j) + 1] = v}
AllGiven(s, b, ps, j) == Cur(b, j) = Len(PartF(s, ps[j]).log)
Count(q, v) == Cardinality({j \in 1..Len(q) : q[j] = v})
\* What a stream may look like after one more item.
More(s, st, b, v) ==
  LET longer == [b EXCEPT !.log = Append(@, v)] IN
  IF Merged(s, st)
  THEN LET ps == Parts(s, st).p IN {[longer EXCEPT !.cur = [x \in 1..Len(ps) |-> IF x = j THEN Cur(b, x) + 1 ELSE Cur(b, x)]] : j \in Givers(s, b, ps, v)}
  ELSE IF Unordered(s, st)
  THEN LET n == s.S[st]
           l == F(s, n.src).log
       IN IF Count(b.log, v) < Cardinality({j \in 1..Len(l) : MapV(s, n.tab, l[j]) = <<1, v>>}) THEN {longer} ELSE {}
  ELSE LET f == F(s, st) IN IF Len(b.log) < Len(f.log) /\ f.log[Len(b.log) + 1] = v THEN {longer} ELSE {}
Out(s, o, v) ==
  LET d == s.D[o]
      b == Seen(s, d.st)
  IN IF d.done THEN {}
     ELSE IF d.pos < Len(b.log) THEN (IF b.log[d.pos + 1] = v THEN {[s EXCEPT !.D[o].pos = @ + 1]} ELSE {})
     ELSE IF b.end # <<>> THEN {}
     ELSE {[s EXCEPT !.D[o].pos = @ + 1, !.O = Put(@, d.st, c)] : c \in More(s, d.st, b, v)}
\* An interleaving ends well when all parts have and are exhausted; otherwise with the error of a part whose items were all given.
\* An unordered map ends well when all results were given; otherwise with the error of the input or of an item.
MayEnd(s, st, b, c) ==
  \/ c \in Cut(s, s.S[st])
  \/ IF Merged(s, st)
     THEN LET x == Parts(s, st) IN
          IF c = 0 THEN x.drop /\ \A j \in 1..Len(x.p) : PartF(s, x.p[j]).end = <<0>> /\ AllGiven(s, b, x.p, j)
          ELSE \E j \in 1..Len(x.p) : PartF(s, x.p[j]).end = <<c>> /\ AllGiven(s, b, x.p, j)
     ELSE IF Unordered(s, st)
     THEN LET f == F(s, s.S[st].src)
              bad == {j \in 1..Len(f.log) : MapV(s, s.S[st].tab, f.log[j])[1] = 2}
          IN IF c = 0 THEN f.end = <<0>> /\ bad = {} /\ Len(b.log) = Len(f.log)
             ELSE f.end = <<c>> \/ \E j \in bad : MapV(s, s.S[st].tab, f.log[j]) = <<2, c>>
     ELSE LET f == F(s, st) IN Len(b.log) = Len(f.log) /\ f.end = <<c>>
End(s, o, c) ==
  LET d == s.D[o]
      b == Seen(s, d.st)
  IN IF d.done \/ d.pos < Len(b.log) THEN {}
     ELSE IF b.end = <<c>> \/ (b.end = <<>> /\ MayEnd(s, d.st, b, c))
     THEN {[x EXCEPT !.D[o].done = TRUE, !.O = Put(@, d.st, [b EXCEPT !.end = <<c>>])] : x \in Reason(s, s.S[d.st], c)} ELSE {}
\* Functor calls: the ones determined so far, in order, in the right place; a map calls once per item, in any order.
CallsOf(s, id, f) == IF f = "aev" THEN AevCalls(s, s.U[id]) ELSE N(s, id).calls
CallOk(s, e) ==
  LET n == IF e.f = "aev" THEN s.U[e.id] ELSE s.S[e.id]
      key == <<e.f = "aev", e.id>>
      made == Get(s.K, key, <<>>)
      here == e.ex = n.e /\ e.it = 1 /\ e.cx = n.cx
      rec == [f |-> e.f, a |-> e.a]
      ok == IF n.k \in {"map", "umap"}
            THEN e.f = "map" /\ Count(made, rec) < Count(F(s, n.src).log, e.a[1])
            ELSE LET cs == CallsOf(s, e.id, e.f) IN Len(made) < Len(cs) /\ cs[Len(made) + 1] = rec
  IN IF here /\ ok THEN {[s EXCEPT !.K = Put(@, key, Append(made, rec))]} ELSE {}
\* A consumer of a future is called once, with its value.
Consumed(s, k, r) == IF k \notin DOMAIN s.M \/ s.M[k].done THEN {} ELSE See([s EXCEPT !.M[k].done = TRUE], s.M[k].f, r)

\* ------------------------------------------------------------ what must have happened when nothing runs any more
Drained(s, d) == LET b == Seen(s, d.st) IN d.done \/ (d.pos = Len(b.log) /\ b.end = <<>>)
Late(n) == n.k = "call" /\ n.mode = 1        \* after the functor, a call only copies the functor's stream
Owes(s, st) ==
  LET b == Seen(s, st)
      n == s.S[st]
      cut == Cut(s, n)
  IN IF b.end # <<>> THEN FALSE
     ELSE IF (cut \ {100}) # {} /\ ~Late(n) THEN TRUE
     ELSE IF Merged(s, st)
     THEN LET x == Parts(s, st) IN
          \/ \E j \in 1..Len(x.p) : ~AllGiven(s, b, x.p, j) \/ PartF(s, x.p[j]).end \notin {<<>>, <<0>>}
          \/ x.drop /\ \A j \in 1..Len(x.p) : PartF(s, x.p[j]).end = <<0>>
     ELSE IF Unordered(s, st)
     THEN LET f == F(s, n.src)
              bad == \E j \in 1..Len(f.log) : MapV(s, n.tab, f.log[j])[1] = 2
          IN f.end # <<>> \/ (cut = {} /\ (bad \/ Len(b.log) < Len(f.log)))
     ELSE IF n.k = "map" /\ cut # {} THEN F(s, n.src).end # <<>>      \* the failing item may have been discarded
     ELSE LET f == F(s, st) IN f.end # <<>> \/ (cut = {} /\ Len(b.log) < Len(f.log))
CallsDone(s) ==
  /\ \A st \in DOMAIN s.S :
       LET n == s.S[st]
           made == Get(s.K, <<FALSE, st>>, <<>>)
       IN ~Runs(n) \/ Cut(s, n) # {} \/ n.k = "umap"
          \/ (IF n.k = "map" THEN (\E j \in 1..Len(F(s, n.src).log) : MapV(s, n.tab, F(s, n.src).log[j])[1] = 2) \/ Len(made) = Len(F(s, n.src).log)
              ELSE n.k = "slice" \/ Len(made) = Len(N(s, st).calls))
  /\ \A f \in DOMAIN s.U : s.U[f].k = "aev" /\ Cut(s, s.U[f]) = {} => Get(s.K, <<TRUE, f>>, <<>>) = AevCalls(s, s.U[f])
AllSettled(s) ==
  /\ \A o \in DOMAIN s.D : Drained(s, s.D[o]) /\ ~Owes(s, s.D[o].st)
  /\ \A k \in DOMAIN s.M : s.M[k].done \/ FV(s, s.M[k].f) = {}
  /\ CallsDone(s)
Step(s, e) ==
  IF s.torn THEN (IF e.e \in {"out", "oend", "call", "fc"} \/ (e.e = "end" /\ e.live = 0) THEN {s} ELSE {}) ELSE
  CASE e.e = "inv" -> {Apply(s, e.o, e.th)}
    [] e.e = "res" -> Result(s, e.o, e.r, e.th)
    [] e.e = "op" -> Result(Apply(s, e.o, e.th), e.o, e.r, e.th)
    [] e.e = "out" -> Out(s, e.o, e.v)
    [] e.e = "oend" -> End(s, e.o, e.c)
    [] e.e = "call" -> CallOk(s, e)
    [] e.e = "fc" -> Consumed(s, e.k, e.r)
    [] e.e = "start" -> {[s EXCEPT !.busy = TRUE]}
    [] e.e = "quiet" -> IF AllSettled(s) THEN {[s EXCEPT !.q = TRUE, !.busy = FALSE]} ELSE {}
    [] e.e = "tear" -> IF AllSettled(s) THEN {[s EXCEPT !.torn = TRUE]} ELSE {}
    [] OTHER -> {}
================================================================================
