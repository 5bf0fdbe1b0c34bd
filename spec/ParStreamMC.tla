------------------------------ MODULE ParStreamMC ------------------------------
(* The algorithm of a stream: chunks of values behind a mutex, a reader that    *)
(* caches how many values of its chunk it may read without the mutex, closing   *)
(* behind an atomic flag, and callbacks taken out under the mutex and invoked   *)
(* after it.  It implements the log of ParStream: readers see a prefix of what  *)
(* was written in order, no reader reads a slot that is not yet written, and no *)
(* callback is lost.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cap0, Cap,     \* capacity of the first chunk (0: none) and of the others
          NWrite, NRead, NSub, NWriters
Writers == 1..NWriters
Readers == (NWriters + 1)..(NWriters + NRead)
VARIABLES chunks,        \* sequence of [cap, vals]
          last, end, cbs, flag,   \* last_chunk_size_, status_, callbacks_, the writer's closed_
          mu,            \* holder of the mutex, 0: free
          pc, todo,      \* writers: program point, callbacks to invoke
          left,          \* writes a writer may still do
          rd,            \* readers: next chunk index, chunk (0: the empty one), offset, known size
          seen, subs, fired, log
vars == <<chunks, last, end, cbs, flag, mu, pc, todo, left, rd, seen, subs, fired, log>>
Init == /\ chunks = (IF Cap0 = 0 THEN <<>> ELSE <<[cap |-> Cap0, vals |-> <<>>]>>)
        /\ last = 0 /\ end = 0 /\ cbs = <<>> /\ flag = FALSE /\ mu = 0
        /\ pc = [x \in Writers \cup Readers |-> "idle"] /\ todo = [w \in Writers |-> <<>>]
        /\ left = [w \in Writers |-> NWrite]
        /\ rd = [r \in Readers |-> [nc |-> 0, ch |-> 0, off |-> 0, known |-> 0]]
        /\ seen = [r \in Readers |-> <<>>] /\ subs = [r \in Readers |-> NSub] /\ fired = [r \in Readers |-> 0]
        /\ log = <<>>
CapOf(c) == IF c = 0 THEN 0 ELSE chunks[c].cap
Upd(x) == LET y == IF x.off = CapOf(x.ch) /\ x.nc < Len(chunks) THEN [x EXCEPT !.ch = x.nc + 1, !.nc = x.nc + 1, !.off = 0] ELSE x
          IN [y EXCEPT !.known = IF y.nc = Len(chunks) THEN last ELSE CapOf(y.ch)]
Val(w) == w * 10 + left[w]
WLock(w) == /\ pc[w] = "idle" /\ mu = 0 /\ left[w] > 0
            /\ mu' = w /\ pc' = [pc EXCEPT ![w] = "write"]
            /\ UNCHANGED <<chunks, last, end, cbs, flag, todo, left, rd, seen, subs, fired, log>>
WWrite(w) == /\ pc[w] = "write" /\ mu' = 0 /\ left' = [left EXCEPT ![w] = @ - 1]
             /\ IF end # 0 THEN pc' = [pc EXCEPT ![w] = "idle"] /\ UNCHANGED <<chunks, last, cbs, todo, log>>
                ELSE LET C == IF chunks = <<>> \/ chunks[Len(chunks)].cap = last THEN Append(chunks, [cap |-> Cap, vals |-> <<>>]) ELSE chunks
                         n == Len(C[Len(C)].vals)
                     IN /\ chunks' = [C EXCEPT ![Len(C)].vals = Append(@, Val(w))]
                        /\ last' = n + 1 /\ log' = Append(log, Val(w))
                        /\ todo' = [todo EXCEPT ![w] = cbs] /\ cbs' = <<>>
                        /\ pc' = [pc EXCEPT ![w] = "call"]
             /\ UNCHANGED <<end, flag, rd, seen, subs, fired>>
\* A closer claims the flag, then closes under the mutex.
CClaim(w) == /\ pc[w] = "idle" /\ ~flag /\ flag' = TRUE /\ pc' = [pc EXCEPT ![w] = "close"]
             /\ UNCHANGED <<chunks, last, end, cbs, mu, todo, left, rd, seen, subs, fired, log>>
CClose(w) == /\ pc[w] = "close" /\ mu = 0 /\ end = 0 /\ end' = w
             /\ todo' = [todo EXCEPT ![w] = cbs] /\ cbs' = <<>> /\ pc' = [pc EXCEPT ![w] = "call"]
             /\ UNCHANGED <<chunks, last, flag, mu, left, rd, seen, subs, fired, log>>
WCall(w) == /\ pc[w] = "call"
            /\ IF todo[w] = <<>> THEN pc' = [pc EXCEPT ![w] = "idle"] /\ UNCHANGED <<todo, fired>>
               ELSE LET r == Head(todo[w])
                    IN todo' = [todo EXCEPT ![w] = Tail(@)] /\ fired' = [fired EXCEPT ![r] = @ + 1] /\ pc' = [pc EXCEPT ![r] = "idle"]
            /\ UNCHANGED <<chunks, last, end, cbs, flag, mu, left, rd, seen, subs, log>>
\* The unlocked fast path and the locked path of a read.
RFast(r) == /\ pc[r] = "idle" /\ rd[r].off < rd[r].known
            /\ seen' = [seen EXCEPT ![r] = Append(@, IF rd[r].off < Len(chunks[rd[r].ch].vals) THEN chunks[rd[r].ch].vals[rd[r].off + 1] ELSE -1)]
            /\ rd' = [rd EXCEPT ![r].off = @ + 1]
            /\ UNCHANGED <<chunks, last, end, cbs, flag, mu, pc, todo, left, subs, fired, log>>
RSlow(r) == /\ pc[r] = "idle" /\ rd[r].off = rd[r].known /\ mu = 0
            /\ LET x == Upd(rd[r]) IN
               IF x.off < x.known
               THEN /\ seen' = [seen EXCEPT ![r] = Append(@, IF x.off < Len(chunks[x.ch].vals) THEN chunks[x.ch].vals[x.off + 1] ELSE -1)]
                    /\ rd' = [rd EXCEPT ![r] = Upd([x EXCEPT !.off = @ + 1])]
               ELSE rd' = [rd EXCEPT ![r] = x] /\ seen' = (IF end # 0 /\ seen[r] # log THEN [seen EXCEPT ![r] = <<-2>>] ELSE seen)
            /\ UNCHANGED <<chunks, last, end, cbs, flag, mu, pc, todo, left, subs, fired, log>>
RSub(r) == /\ pc[r] = "idle" /\ mu = 0 /\ subs[r] > 0 /\ subs' = [subs EXCEPT ![r] = @ - 1]
           /\ LET x == Upd(rd[r]) IN
              IF end = 0 /\ x.off = x.known
              THEN rd' = [rd EXCEPT ![r] = x] /\ cbs' = Append(cbs, r) /\ pc' = [pc EXCEPT ![r] = "wait"] /\ UNCHANGED fired
              ELSE rd' = (IF end = 0 THEN [rd EXCEPT ![r] = x] ELSE rd) /\ fired' = [fired EXCEPT ![r] = @ + 1] /\ UNCHANGED <<cbs, pc>>
           /\ UNCHANGED <<chunks, last, end, flag, mu, todo, left, seen, log>>
Next == \/ \E w \in Writers : WLock(w) \/ WWrite(w) \/ CClaim(w) \/ CClose(w) \/ WCall(w)
        \/ \E r \in Readers : RFast(r) \/ RSlow(r) \/ RSub(r)
IsPre(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
InTodo(r) == \E w \in Writers : \E k \in 1..Len(todo[w]) : todo[w][k] = r
Inv == /\ \A r \in Readers : IsPre(seen[r], log)
       \* a waiting reader that has something to read is about to be called back
       /\ \A r \in Readers : pc[r] = "wait" => (InTodo(r) \/ (\E k \in 1..Len(cbs) : cbs[k] = r))
       /\ \A r \in Readers : (pc[r] = "wait" /\ (end # 0 \/ Len(seen[r]) < Len(log))) => InTodo(r)
       /\ \A r \in Readers : fired[r] + subs[r] + (IF pc[r] = "wait" THEN 1 ELSE 0) = NSub
Grows == [][IsPre(log, log') /\ (end # 0 => end' = end /\ log' = log)]_vars
================================================================================
