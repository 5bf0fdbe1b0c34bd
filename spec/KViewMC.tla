------------------------------- MODULE KViewMC -------------------------------
(* The algebra of views, checked on all pairs of small jagged arrays; the      *)
(* pairs and the operations on them are emitted for replay.                    *)
EXTENDS KView, Json
CONSTANTS Gen, Wide
VARIABLES v, w, done
Leaf == {None, Num(1), Pres} \cup (IF Wide THEN {Num(2), Str("a", 1)} ELSE {})
Seqs(S) == {<<>>} \cup {<<x>> : x \in S} \cup {<<x, y>> : x, y \in S}
D1 == {Tup(q) : q \in Seqs(Leaf)}
D2 == {Tup(q) : q \in Seqs(IF Wide THEN {Tup(q) : q \in Seqs({None, Num(1), Pres})} ELSE D1)}
Views == {View(0, x) : x \in Leaf} \cup {View(1, x) : x \in D1} \cup {View(2, x) : x \in D2}
Init == v \in Views /\ w \in Views /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<v, w>> /\ (Gen => PrintT("GEN" \o ToJson(<<v, w>>)))
H == "o" :> [k |-> "list", q |-> <<>>, m |-> <<>>]
O == [lo |-> None, hi |-> None, name |-> "p", hasdef |-> FALSE, def |-> None, kw |-> <<>>, sort |-> FALSE]
Ok(x) == x.d >= 0
Lv(x) == Leaves(x.t, x.d)
SameShape == v.d = w.d /\ Ok(Map(H, "first", O, <<v, w>>))
IsMask(x) == \A i \in 1..Len(Lv(x)) : Lv(x)[i].k \in {"P", "N"}
R(op, o, a) == Result(H, [op |-> op] @@ o @@ O, a)
\* Laws of one view: checked once per view.
Unary ==
  /\ v.d > 0 => Explode(H, O, Implode(v, 1), 1) = v
  /\ Implode(v, -1).d = 0 /\ Implode(v, -1).t = v.t
  /\ Lv(Flatten(v, 0, v.d)) = Lv(v) /\ Flatten(v, 0, v.d).d = 1
  /\ \A f, e \in -1..3 : Lv(Flatten(v, f, e)) = Lv(v)
  /\ v.d > 0 => Flatten(v, v.d - 1, v.d) = v
  /\ ExpandTo(H, O, v, v, 0) = v
  /\ Map(H, "or", O, <<v, v>>) = v
  /\ v.d > 0 => R("collapse", [n |-> 0], <<v>>) = v
Binary ==
  /\ LET x == ExpandTo(H, O, v, w, 0) IN Ok(x) =>
       /\ x.d = w.d /\ Len(Lv(x)) = Len(Lv(w))
       /\ \A i \in 1..Len(Lv(x)) : Lv(x)[i] \in Set(Lv(v))
       /\ ExpandTo(H, O, x, w, 0) = x
  /\ LET al == Align(H, O, <<v, w>>) IN (Ok(al[1]) /\ Ok(al[2])) => al[1].d = al[2].d /\ Ok(Map(H, "first", O, al))
  /\ (SameShape /\ IsMask(w)) =>
       LET m == Map(H, "and", O, <<v, w>>) IN
       /\ Ok(m) /\ Map(H, "or", O, <<m, v>>) = v
       /\ v.d > 0 => R("invselect", <<>>, <<R("select", [expand |-> TRUE], <<v, w>>), w>>) = m
  /\ SameShape =>
       /\ Map(H, "eq", O, <<v, w>>) = Map(H, "eq", O, <<w, v>>)
       /\ LET e == Map(H, "eq", O, <<v, w>>)
              n == Map(H, "ne", O, <<v, w>>)
          IN \A i \in 1..Len(Lv(v)) : LET both == Lv(v)[i].k # "N" /\ Lv(w)[i].k # "N"
                                      IN both = ((Lv(e)[i].k = "P") # (Lv(n)[i].k = "P"))
       /\ v.d > 0 => LET g == R("groupby", <<>>, <<v, w>>) IN
            /\ g.d = v.d + 1
            /\ Len(Lv(g)) = Cardinality({i \in 1..Len(Lv(w)) : Lv(w)[i].k # "N"})
  /\ R("map", [n |-> 0, inc |-> "dflt"], <<v, w>>).d \in {-1, IF v.d > w.d THEN v.d ELSE w.d}
\* Checked in the successors, which TLC explores in parallel.
Laws == done => ((v = w => Unary) /\ Binary)
===============================================================================
