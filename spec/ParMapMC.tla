------------------------------- MODULE ParMapMC -------------------------------
(* The sink of an ordered map: results arrive in any order from the workers;    *)
(* the sink buffers them, writes the longest known prefix, and remembers the    *)
(* smallest offset at which the output must end (an item that failed, or the    *)
(* end of the input).  One reader schedules the items, unless told to stop.     *)
(* Whatever the order, the output is that of ParFlow.                           *)
EXTENDS ParFlow
CONSTANTS NItems, Workers
Inf == 1000
VARIABLES bads,      \* items that fail
          inEnd,     \* how the input ends
          rd,        \* items the reader has scheduled; NItems + 1 when it has passed on the end
          stop,      \* the reader is to stop
          todo, at,  \* scheduled items; what every worker is at: <<>> or <<item, phase>>
          fin, finSt, count, buf, out, oend
vars == <<bads, inEnd, rd, stop, todo, at, fin, finSt, count, buf, out, oend>>
Items == 0..(NItems - 1)
Init == /\ bads \in SUBSET Items /\ inEnd \in {<<>>, <<0>>, <<7>>} /\ rd = 0 /\ stop = FALSE /\ todo = {}
        /\ at = [w \in 1..Workers |-> <<>>] /\ fin = Inf /\ finSt = -1 /\ count = 0 /\ buf = {} /\ out = <<>> /\ oend = <<>>
Accepts(i) == i < fin
\* The end of the output, or of what is known of it.
PushStatus(i, c) ==
  IF ~Accepts(i) THEN UNCHANGED <<fin, finSt, oend>>
  ELSE /\ fin' = i
       /\ IF i = count THEN oend' = (IF oend = <<>> THEN <<c>> ELSE oend) /\ UNCHANGED finSt ELSE finSt' = c /\ UNCHANGED oend
RECURSIVE Run(_, _)
Run(c, b) == IF c \in b THEN Run(c + 1, b) ELSE c
Read == /\ ~stop /\ rd <= NItems
        /\ IF rd < NItems THEN todo' = todo \cup {rd} /\ rd' = rd + 1 /\ UNCHANGED <<fin, finSt, oend>>
           ELSE inEnd # <<>> /\ rd' = rd + 1 /\ PushStatus(NItems, inEnd[1]) /\ UNCHANGED todo
        /\ UNCHANGED <<bads, inEnd, stop, at, count, buf, out>>
Take(w) == /\ at[w] = <<>> /\ \E i \in todo : /\ todo' = todo \ {i}
                                             /\ at' = [at EXCEPT ![w] = IF Accepts(i) THEN <<i>> ELSE <<>>]
           /\ UNCHANGED <<bads, inEnd, rd, stop, fin, finSt, count, buf, out, oend>>
Push(w) ==
  /\ at[w] # <<>>
  /\ LET i == at[w][1] IN
     IF i \in bads THEN PushStatus(i, 200 + i) /\ stop' = TRUE /\ UNCHANGED <<count, buf, out>>
     ELSE IF ~Accepts(i) THEN stop' = TRUE /\ UNCHANGED <<fin, finSt, count, buf, out, oend>>
     ELSE LET b == buf \cup {i}
              c == Run(count, b)
          IN /\ count' = c /\ buf' = {j \in b : j >= c}
             /\ out' = out \o [j \in 1..(c - count) |-> count + j - 1]
             /\ IF c = fin THEN oend' = <<finSt>> /\ fin' = 0 /\ stop' = TRUE /\ UNCHANGED finSt
                ELSE UNCHANGED <<fin, finSt, oend, stop>>
  /\ at' = [at EXCEPT ![w] = <<>>]
  /\ UNCHANGED <<bads, inEnd, rd, todo>>
Next == Read \/ \E w \in 1..Workers : Take(w) \/ Push(w)
Abs == [Empty EXCEPT !.S = <<[k |-> "src", log |-> [j \in 1..NItems |-> j - 1], end |-> inEnd],
                             [k |-> "map", src |-> 1, tab |-> 0, e |-> 0, cx |-> -1]>>,
                     !.T = <<[j \in 1..10 |-> IF (j - 1) \in bads THEN -1 ELSE j - 1]>>]
Want == F(Abs, 2)
IsPre(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Inv == /\ IsPre(out, Want.log) /\ (oend # <<>> => oend = Want.end /\ out = Want.log)
       /\ count = Len(out) /\ (oend = <<>> => count <= fin)
Done == ~ENABLED Next => (out = Want.log /\ oend = Want.end)
===============================================================================
