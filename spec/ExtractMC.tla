------------------------------ MODULE ExtractMC ------------------------------
(* Laws of extraction, over every small world: objects 0 and 1, schemas 2 and 3 *)
(* with the attributes Attrs, two bags.                                         *)
EXTENDS Extract
CONSTANT Attrs
VARIABLES S, A, K
vars == <<S, A, K>>
Put(f, v) == [k \in {x \in DOMAIN f : f[x] # v} |-> f[k]]
Init == /\ S \in [{2, 3} \X Attrs -> {-1, 180, Object, 1002, 1003}]
        /\ A \in [{0, 1} \X {Low(Attrs)} -> {-1, 0, 101, 1000, 1001}]
        /\ K \in [{0, 1} -> {-1, 1002, 1003}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
K2 == Put([k \in {0, 1} \X {KSchema} |-> K[k[1]]], -1)
A2 == Put(A, -1)
World == [EmptyC EXCEPT !.A = K2 @@ A2, !.S = Put(S, -1)]
\* the same, spread over two bags
First == [EmptyC EXCEPT !.A = K2 @@ [k \in {x \in DOMAIN A2 : x[1] = 0} |-> A2[k]]]
Second == [EmptyC EXCEPT !.A = [k \in {x \in DOMAIN A2 : x[1] = 1 \/ x[2] = 0} |-> IF k[1] = 1 THEN A2[k] ELSE 101], !.S = World.S]
Sub(f, g) == DOMAIN f \subseteq DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]
Of(ch, T, max) == Copy(ch, Reached(ch, <<0>>, T, max))
Bad(T, max) == Reached(<<World>>, <<0>>, T, max).bad
Laws ==
  \A T \in {Object, 1002} :
    LET c == Of(<<World>>, T, -1)
    IN ~Bad(T, -1) =>
         \* only what is there; once more changes nothing; through a chain the same; deeper is more
         /\ Sub(c.A, World.A) /\ Sub(c.S, World.S)
         /\ Of(<<c>>, T, -1) = c
         /\ Of(<<c, World>>, T, -1) = c
         /\ (DOMAIN Second.A \cap {0} \X Attrs \subseteq DOMAIN First.A) => Of(<<First, Second>>, T, -1) = c
         /\ Of(<<World>>, T, 9) = c
         /\ \A d \in 0..2 : LET x == Of(<<World>>, T, d)
                                y == Of(<<World>>, T, d + 1)
                            IN ~Bad(T, d) /\ Sub(x.A, y.A) /\ Sub(x.S, y.S)
==============================================================================
