------------------------------ MODULE DataBagMC ------------------------------
(* Bags at small bounds: the laws a user relies on hold in every state that     *)
(* writing, forking and merging can reach.                                      *)
EXTENDS DataBag
CONSTANTS NObj, NVal, MaxOps
VARIABLES c,      \* contents of the bags
          from,   \* the bag each bag was forked from, 0: none
          snap,   \* what the fork must still show of it
          steps
vars == <<c, from, snap, steps>>
O == 0..(NObj - 1)
V == 1..NVal
Bags == 1..3
Init == c = [b \in Bags |-> EmptyC] /\ from = [b \in Bags |-> 0] /\ snap = [b \in Bags |-> EmptyC] /\ steps = 0
Locked(b) == \E x \in Bags : from[x] = b
Write(b, d) == ~Locked(b) /\ c' = [c EXCEPT ![b] = d] /\ UNCHANGED <<from, snap>>
SetAttr(b) == \E o \in O, v \in 0..NVal : Write(b, SetA(c[b], <<o>>, 1, <<v>>))
Append1(b) == \E o \in O, v \in V : Len(ListOf(<<c[b].L>>, o)) < 2 /\
                Write(b, [c[b] EXCEPT !.L = Fold(@, <<o>>, <<TRUE>>, LAMBDA q, i : Append(q, v), 1)])
SetDict(b) == \E o \in O, k \in V, v \in 0..NVal : Write(b, [c[b] EXCEPT !.D = SetD(@, <<o>>, <<TRUE>>, <<k>>, <<v>>, 1)])
ClearDict(b) == \E o \in O : Write(b, [c[b] EXCEPT !.D = ClearD(@, {o})])
SetSchema(b) == \E o \in O, v \in 0..NVal : Write(b, [c[b] EXCEPT !.S = SetCells(@, <<o>>, 1, <<v>>)])
Merge(b) == \E x \in Bags \ {b}, dp \in 0..2, sp \in 0..2 :
              ~Conflicts(c[b], c[x], dp, sp, {0}) /\ Write(b, Merged(c[b], c[x], dp, sp, {0}))
Fork(b) == \E x \in Bags \ {b} : /\ from[b] = 0 /\ ~Locked(b) /\ c[b] = EmptyC /\ from[x] = 0 /\ c[x] # EmptyC
                                 /\ c' = [c EXCEPT ![b] = c[x]] /\ from' = [from EXCEPT ![b] = x] /\ snap' = [snap EXCEPT ![b] = c[x]]
Next == /\ steps < MaxOps /\ steps' = steps + 1
        /\ \E b \in Bags : SetAttr(b) \/ Append1(b) \/ SetDict(b) \/ ClearDict(b) \/ SetSchema(b) \/ Merge(b) \/ Fork(b)
Spec == Init /\ [][Next]_vars
\* a fork never changes what it was forked from
Isolated == \A b \in Bags : from[b] # 0 => c[from[b]] = snap[b]
\* merging and looking up along a chain agree
ChainLaw == \A b, x \in Bags :
  LET m == Over(c[b], c[x])
      k == Merged(c[b], c[x], 1, 1, {0})
  IN \A o \in O : /\ \A a \in {1} : /\ Cell(As(<<m>>), <<o, a>>) = Cell(As(<<c[x], c[b]>>), <<o, a>>)
                                   /\ Cell(As(<<k>>), <<o, a>>) = Cell(As(<<c[b], c[x]>>), <<o, a>>)
                                   /\ Cell(Ss(<<m>>), <<o, a>>) = Cell(Ss(<<c[x], c[b]>>), <<o, a>>)
                  /\ ListOf(Ls(<<m>>), o) = ListOf(Ls(<<c[x], c[b]>>), o)
                  /\ ListOf(Ls(<<k>>), o) = ListOf(Ls(<<c[b], c[x]>>), o)
                  /\ KeysOf(<<m>>, o) = KeysOf(<<c[b], c[x]>>, o)
                  /\ \A y \in V : Cell(Ds(<<m>>), <<o, y>>) = Cell(Ds(<<c[x], c[b]>>), <<o, y>>)
\* merging the other way round with the reversed policies gives the same bag
ReverseLaw == \A b, x \in Bags, dp \in 0..2, sp \in 0..2 :
  /\ Conflicts(c[b], c[x], dp, sp, {0}) = Conflicts(c[x], c[b], Reverse(dp), Reverse(sp), {0})
  /\ ~Conflicts(c[b], c[x], dp, sp, {0}) => Merged(c[b], c[x], dp, sp, {0}) = Merged(c[x], c[b], Reverse(dp), Reverse(sp), {0})
\* without a conflict the policies make no difference, merging again changes nothing, and overwriting is associative
Laws == \A b, x \in Bags :
  /\ ~Conflicts(c[b], c[x], 0, 0, {0}) => Over(c[b], c[x]) = Merged(c[b], c[x], 1, 1, {0})
  /\ Over(Over(c[b], c[x]), c[x]) = Over(c[b], c[x]) /\ Over(c[b], c[b]) = c[b]
  /\ \A y \in Bags : Over(Over(c[b], c[x]), c[y]) = Over(c[b], Over(c[x], c[y]))
==============================================================================
