----------------------------- MODULE ParComposeMC -----------------------------
(* The scheduler of StreamChain: a queue of pending inputs behind a mutex; the  *)
(* thread that finds the queue empty when it adds, or that is called back by    *)
(* the first pending input, moves items until the input at the front has        *)
(* nothing to give, and subscribes to it.  Whenever nobody is at work the       *)
(* output is exactly the concatenation of ParFlow.                              *)
EXTENDS ParFlow, TLC
CONSTANTS NIn, MaxLen
In == 1..NIn
Th == 0..NIn             \* 0 adds the inputs in order, i writes input i
VARIABLES wr, en,        \* inputs: items written, ending (<<>> or <<status>>)
          added, dropped, queue, pos, errRep, subs, pc, out, oend, bad
vars == <<wr, en, added, dropped, queue, pos, errRep, subs, pc, out, oend, bad>>
Init == /\ wr = [i \in In |-> 0] /\ en = [i \in In |-> <<>>] /\ added = 0 /\ dropped = FALSE /\ queue = <<>>
        /\ pos = [i \in In |-> 0] /\ errRep = FALSE /\ subs = {} /\ pc = [t \in Th |-> "idle"]
        /\ out = <<>> /\ oend = <<>> /\ bad = FALSE
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
AddIn == /\ pc[0] = "idle" /\ added < NIn /\ ~dropped /\ added' = added + 1
         /\ IF errRep THEN UNCHANGED <<queue, pc>>
            ELSE queue' = Append(queue, added + 1) /\ (IF queue = <<>> THEN Go(0, "start") ELSE UNCHANGED pc)
         /\ UNCHANGED <<wr, en, dropped, pos, errRep, subs, out, oend, bad>>
DropIt == /\ pc[0] = "idle" /\ ~dropped /\ dropped' = TRUE
          /\ UNCHANGED <<wr, en, added, queue, pos, errRep, subs, pc, out, oend, bad>>
Start(t) == /\ pc[t] = "start" /\ bad' = (bad \/ queue = <<>> \/ errRep) /\ Go(t, "read")
            /\ UNCHANGED <<wr, en, added, dropped, queue, pos, errRep, subs, out, oend>>
Read(t) == /\ pc[t] = "read" /\ queue # <<>>
           /\ LET i == Head(queue) IN
              IF pos[i] < wr[i] THEN out' = Append(out, i * 10 + pos[i]) /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ UNCHANGED <<pc, oend>>
              ELSE IF en[i] = <<>> THEN Go(t, "sub") /\ UNCHANGED <<out, pos, oend>>
              ELSE IF en[i] = <<0>> THEN Go(t, "pop") /\ UNCHANGED <<out, pos, oend>>
              ELSE Go(t, "err") /\ oend' = en[i] /\ UNCHANGED <<out, pos>>
           /\ UNCHANGED <<wr, en, added, dropped, queue, errRep, subs, bad>>
Sub(t) == /\ pc[t] = "sub"
          /\ LET i == Head(queue) IN
             IF pos[i] < wr[i] \/ en[i] # <<>> THEN Go(t, "start") /\ UNCHANGED subs
             ELSE Go(t, "idle") /\ subs' = subs \cup {i}
          /\ UNCHANGED <<wr, en, added, dropped, queue, pos, errRep, out, oend, bad>>
Pop(t) == /\ pc[t] = "pop" /\ queue' = Tail(queue) /\ Go(t, IF Tail(queue) = <<>> THEN "idle" ELSE "read")
          /\ UNCHANGED <<wr, en, added, dropped, pos, errRep, subs, out, oend, bad>>
Err(t) == /\ pc[t] = "err" /\ queue' = <<>> /\ errRep' = TRUE /\ Go(t, "idle")
          /\ UNCHANGED <<wr, en, added, dropped, pos, subs, out, oend, bad>>
Wake(i) == IF i \in subs THEN subs' = subs \ {i} /\ Go(i, "start") ELSE UNCHANGED <<subs, pc>>
Write(i) == /\ pc[i] = "idle" /\ en[i] = <<>> /\ wr[i] < MaxLen /\ wr' = [wr EXCEPT ![i] = @ + 1] /\ Wake(i)
            /\ UNCHANGED <<en, added, dropped, queue, pos, errRep, out, oend, bad>>
Close(i) == /\ pc[i] = "idle" /\ en[i] = <<>> /\ \E c \in {0, 7} : en' = [en EXCEPT ![i] = <<c>>]
            /\ Wake(i) /\ UNCHANGED <<wr, added, dropped, queue, pos, errRep, out, oend, bad>>
\* The last owner goes: the object itself, a subscription's callback, or a thread at work.
Destroy == /\ dropped /\ subs = {} /\ \A t \in Th : pc[t] = "idle" /\ oend = <<>> /\ ~errRep
           /\ bad' = (bad \/ queue # <<>>) /\ oend' = <<0>>
           /\ UNCHANGED <<wr, en, added, dropped, queue, pos, errRep, subs, pc, out>>
Next == AddIn \/ DropIt \/ Destroy \/ (\E t \in Th : Start(t) \/ Read(t) \/ Sub(t) \/ Pop(t) \/ Err(t)) \/ \E i \in In : Write(i) \/ Close(i)
\* The abstract state of ParFlow.
Abs == [Empty EXCEPT !.S = [i \in 0..NIn |->
          IF i = 0 THEN [k |-> "chain", parts |-> [j \in 1..added |-> SPart(j)], drop |-> dropped, held |-> TRUE]
          ELSE [k |-> "src", log |-> [j \in 1..wr[i] |-> i * 10 + j - 1], end |-> en[i]]]]
IsPre(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Idle == \A t \in Th : pc[t] = "idle"
Inv == /\ ~bad
       /\ Cardinality({t \in Th : pc[t] # "idle"}) <= 1
       /\ IsPre(out, F(Abs, 0).log) /\ (oend # <<>> => oend = F(Abs, 0).end)
\* At rest nothing is missing.
Done == Idle => (out = F(Abs, 0).log /\ (F(Abs, 0).end # <<>> => (oend = F(Abs, 0).end \/ ENABLED Destroy)))
================================================================================
