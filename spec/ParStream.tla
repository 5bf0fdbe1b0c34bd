------------------------------- MODULE ParStream -------------------------------
(* A stream is an append-only log with a sticky closing status.  Its readers    *)
(* each walk the whole log; a subscription calls back once when its reader has  *)
(* something to read.  A writer closes its stream at most once; a writer that   *)
(* goes away without having closed it closes it as "orphaned" (status 100).     *)
EXTENDS Integers, Sequences, FiniteSets
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [S |-> <<>>,      \* streams: log, closing status (<<>> or <<code>>), whether a handle exists
          W |-> <<>>,      \* writers: stream, whether the close has been claimed
          R |-> <<>>,      \* readers: stream, position
          P |-> {},        \* pending subscriptions <<k, reader>>
         want |-> <<>>]   \* what the history reads from each stream: lookahead that prunes the orders of unread writes
Alive(s, i) == s.S[i].h \/ \E r \in DOMAIN s.R : s.R[r].st = i
Ready(s, r) == LET x == s.S[s.R[r].st] IN s.R[r].pos < Len(x.log) \/ x.end # <<>>
\* What a read returns, and the reader after it.
Read(s, r) == LET x == s.S[s.R[r].st]  p == s.R[r].pos
              IN IF p < Len(x.log) THEN [s |-> [s EXCEPT !.R[r].pos = p + 1], r |-> <<1, x.log[p + 1]>>]
                 ELSE IF x.end # <<>> THEN [s |-> s, r |-> <<2, x.end[1]>>]
                 ELSE [s |-> s, r |-> <<0>>]
\* Appending a value.  An order of writes that a later read refutes is not pursued; values nobody reads are not told apart.
Append1(s, i, v) ==
  LET n == Len(s.S[i].log) + 1  w == IF i < Len(s.want) THEN s.want[i + 1] ELSE <<>>
  IN IF n > Len(w) THEN {[s EXCEPT !.S[i].log = Append(@, IF s.want = <<>> THEN v ELSE 0)]}
     ELSE IF w[n] = v THEN {[s EXCEPT !.S[i].log = Append(@, v)]} ELSE {}
FinAll(T, r) == {[s |-> t, pc |-> 9, r |-> <<r>>] : t \in T}
Fin(s, r) == {[s |-> s, pc |-> 9, r |-> <<r>>]}

\* Closing: claim, then commit.  An attempt that loses the claim has no effect.
CloseSteps(s, p, code) ==
  LET w == p.o.a[1]  i == s.W[w].st IN
  IF p.pc = 0 THEN IF s.W[w].claimed THEN Fin(s, <<>>)
                   ELSE {[s |-> [s EXCEPT !.W[w].claimed = TRUE], pc |-> 1, r |-> <<>>]}
  ELSE IF Alive(s, i) THEN Fin([s EXCEPT !.S[i].end = <<code>>], <<>>) ELSE Fin(s, <<>>)

Adv(s, p) ==
  LET o == p.o  a == o.a IN
  CASE o.k = "mk" -> Fin([s EXCEPT !.S = Put(@, a[1], [log |-> <<>>, end |-> <<>>, h |-> TRUE]),
                                   !.W = Put(@, a[2], [st |-> a[1], claimed |-> FALSE])], <<>>)
    [] o.k = "rd" -> Fin([s EXCEPT !.R = Put(@, a[2], [st |-> a[1], pos |-> 0])], <<>>)
    [] o.k = "wr" -> LET i == s.W[a[1]].st IN
                     IF ~Alive(s, i) THEN Fin(s, <<>>)
                     ELSE IF s.S[i].end = <<>> THEN FinAll(Append1(s, i, a[2]), <<>>)
                     ELSE {}                                    \* undefined: never generated
    [] o.k = "twr" -> LET i == s.W[a[1]].st
                          no == IF ~Alive(s, i) \/ s.W[a[1]].claimed THEN Fin(s, <<0>>) ELSE {}
                          yes == IF s.S[i].end = <<>> /\ Alive(s, i) THEN FinAll(Append1(s, i, a[2]), <<1>>) ELSE {}
                      IN no \cup yes
    [] o.k \in {"cl", "tcl"} -> CloseSteps(s, p, a[2])
    [] o.k = "dw" -> CloseSteps(s, p, 100)
    [] o.k = "orph" -> LET w == s.W[a[1]] IN Fin(s, <<IF w.claimed \/ ~Alive(s, w.st) THEN 1 ELSE 0>>)
    [] o.k = "tr" -> LET d == Read(s, a[1]) IN Fin(d.s, d.r)
    [] o.k = "cb" -> LET d == Read(s, a[2]) IN IF d.r = <<0>> THEN {} ELSE Fin(d.s, d.r)
    [] o.k = "sub" -> Fin([s EXCEPT !.P = @ \cup {<<a[2], a[1]>>}], <<>>)
    [] o.k = "ds" -> Fin([s EXCEPT !.S[a[1]].h = FALSE], <<>>)
    [] o.k = "dr" -> Fin([s EXCEPT !.R = Drop(@, a[1]), !.P = {x \in @ : x[2] # a[1]}], <<>>)
    [] o.k = "aw" -> Fin(s, <<>>)
    [] OTHER -> {}
\* A callback starts only for a subscription that has not called back yet.
Enter(s, e) == IF e.o.k # "cb" THEN {s}
               ELSE IF <<e.o.a[1], e.o.a[2]>> \in s.P THEN {[s EXCEPT !.P = @ \ {<<e.o.a[1], e.o.a[2]>>}]} ELSE {}
\* When nothing runs any more no subscription is owed a callback; at the end every value has been destroyed.
Other(s, e) ==
  CASE e.e = "start" -> {s}
    [] e.e = "quiet" -> IF \E x \in s.P : Ready(s, x[2]) THEN {} ELSE {s}
    [] e.e = "tear" -> IF \E x \in s.P : Ready(s, x[2]) THEN {} ELSE {s}
    [] e.e = "end" -> IF e.live = 0 THEN {s} ELSE {}
    [] OTHER -> {}                     \* crash, deadlock, livelock
================================================================================
