------------------------------ MODULE LruConcMC ------------------------------
(* The locking design: each public call of each thread is acquire; (several     *)
(* unsynchronised reads and writes of entries and byte counter); release.  TLC  *)
(* explores all interleavings of the micro-steps and shows that with the lock   *)
(* the byte counter always equals the sum of the entries when the lock is free, *)
(* the budget holds, and all threads that set the same key get one value.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Max, UseLock
VARIABLES q, total, lock, pc, op, ret
vars == <<q, total, lock, pc, op, ret>>
NoOp == [op |-> "none", k |-> 0, n |-> 0]
Ops == {[op |-> "set", k |-> k, n |-> n] : k \in {1, 2}, n \in {1, 2}} \cup {[op |-> "remove", k |-> k, n |-> 0] : k \in {1, 2}}
Init == /\ q = <<>> /\ total = 0 /\ lock = 0 /\ pc = [i \in Threads |-> "idle"]
        /\ op = [i \in Threads |-> NoOp] /\ ret = [i \in Threads |-> 0]
Has(k) == \E i \in 1..Len(q) : q[i].k = k
At(k) == q[CHOOSE i \in 1..Len(q) : q[i].k = k]
Without(k) == SelectSeq(q, LAMBDA e : e.k # k)
Start(i) == /\ pc[i] = "idle" /\ \E o \in Ops : op' = [op EXCEPT ![i] = o]
            /\ pc' = [pc EXCEPT ![i] = "acq"] /\ UNCHANGED <<q, total, lock, ret>>
Acquire(i) == /\ pc[i] = "acq" /\ (UseLock => lock = 0)
              /\ lock' = IF UseLock THEN i ELSE lock
              /\ pc' = [pc EXCEPT ![i] = "look"] /\ UNCHANGED <<q, total, op, ret>>
Look(i) == /\ pc[i] = "look"
           /\ LET o == op[i] IN
              IF o.op = "remove"
              THEN IF Has(o.k) THEN /\ ret' = [ret EXCEPT ![i] = At(o.k).n] /\ q' = Without(o.k)
                                    /\ pc' = [pc EXCEPT ![i] = "sub"]
                   ELSE /\ pc' = [pc EXCEPT ![i] = "rel"] /\ UNCHANGED <<q, ret>>
              ELSE IF Has(o.k) THEN /\ ret' = [ret EXCEPT ![i] = At(o.k).own] /\ UNCHANGED q
                                    /\ pc' = [pc EXCEPT ![i] = "rel"]
                   ELSE /\ ret' = [ret EXCEPT ![i] = i] /\ UNCHANGED q
                        /\ pc' = [pc EXCEPT ![i] = IF o.n > Max THEN "rel" ELSE "evict"]
           /\ UNCHANGED <<total, lock, op>>
Sub(i) == /\ pc[i] = "sub" /\ total' = total - ret[i] /\ pc' = [pc EXCEPT ![i] = "rel"]
          /\ UNCHANGED <<q, lock, op, ret>>
Evict(i) == /\ pc[i] = "evict"
            /\ IF total <= Max - op[i].n \/ q = <<>>
               THEN pc' = [pc EXCEPT ![i] = "ins"] /\ UNCHANGED <<q, total>>
               ELSE q' = Tail(q) /\ total' = total - Head(q).n /\ UNCHANGED pc
            /\ UNCHANGED <<lock, op, ret>>
Ins(i) == /\ pc[i] = "ins" /\ q' = Append(Without(op[i].k), [k |-> op[i].k, n |-> op[i].n, own |-> i])
          /\ pc' = [pc EXCEPT ![i] = "add"] /\ UNCHANGED <<total, lock, op, ret>>
Add(i) == /\ pc[i] = "add" /\ total' = total + op[i].n /\ pc' = [pc EXCEPT ![i] = "rel"]
          /\ UNCHANGED <<q, lock, op, ret>>
Release(i) == /\ pc[i] = "rel" /\ lock' = IF UseLock THEN 0 ELSE lock
              /\ pc' = [pc EXCEPT ![i] = "idle"] /\ op' = [op EXCEPT ![i] = NoOp]
              /\ ret' = [ret EXCEPT ![i] = 0] /\ UNCHANGED <<q, total>>
Next == \E i \in Threads : Start(i) \/ Acquire(i) \/ Look(i) \/ Sub(i) \/ Evict(i) \/ Ins(i) \/ Add(i) \/ Release(i)
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s).n + Sum(Tail(s))
Busy == \E i \in Threads : pc[i] \notin {"idle", "acq"}
Exact == ~Busy => total = Sum(q)
Budget == ~Busy => Sum(q) <= Max
Mutex == \A i, j \in Threads : pc[i] \notin {"idle", "acq"} /\ pc[j] \notin {"idle", "acq"} => i = j
Unique == \A i, j \in 1..Len(q) : q[i].k = q[j].k => i = j
===============================================================================
