-------------------------------- MODULE JsonMC --------------------------------
(* Laws of the JSON specification on all small streams of values, and the     *)
(* streams themselves for replay.                                             *)
EXTENDS JsonStream, Json, TLC
CONSTANTS Gen, Wide
VARIABLES vs, ph

T(k, t) == [k |-> k, t |-> t]
L(e) == [k |-> "l", e |-> e]
O(e) == [k |-> "o", e |-> e]
\* "a", "\"", "\ud83d\ude00", " , "
StrA == T("s", <<34, 97, 34>>)
StrQ == T("s", <<34, 92, 34, 34>>)
StrP == T("s", <<34, 92, 117, 100, 56, 51, 100, 92, 117, 68, 69, 48, 48, 34>>)
StrS == T("s", <<34, 32, 44, 91, 125, 92, 92, 34>>)
Atom == {T("a", Null), T("a", True), T("n", <<48>>), T("n", <<45, 49, 46, 53, 69, 43, 50>>), StrA, StrQ}
        \cup (IF Wide THEN {StrP, StrS} ELSE {})
K1 == <<34, 97, 34>>
K2 == <<34, 92, 110, 34>>
Seqs(S, n) == UNION {[1..i -> S] : i \in 0..n}
Flat1 == {L(e) : e \in Seqs(Atom, 2)} \cup {O(e) : e \in Seqs({K1, K2} \X {T("a", Null), StrA, T("n", <<48>>)}, 2)}
Few == {T("a", Null), StrA, L(<<>>), O(<<>>), L(<<StrQ>>), O(<<<<K2, T("n", <<48>>)>>>>)}
Nest == {L(e) : e \in Seqs(Few, 2)} \cup {O(e) : e \in Seqs({K1, K2} \X Few, 2)}
        \cup {L(<<x, y, z>>) : x \in {O(<<>>), StrA}, y \in Few, z \in Few}
Vals1 == Atom \cup Flat1 \cup Nest
Streams == {<<>>} \cup {<<v>> : v \in Vals1} \cup {<<v, w>> : v \in Few \cup Atom, w \in Few \cup Atom}
           \cup {<<v, w, x>> : v \in Few, w \in Few, x \in Few}
           \cup (IF Wide THEN {<<v, w>> : v \in Few, w \in Flat1} ELSE {})

Op(k, a, b, c, w) == [kind |-> k, a |-> a, b |-> b, c |-> c, w |-> w]
Read(s) == Values(s, FALSE)
Laws ==
  LET c == CompactLines(vs)
      pr == Out(Op("prettify", 0, 0, 0, <<32, 32>>), vs)
  IN /\ Read(c) = [ok |-> TRUE, vs |-> vs]
     /\ LineValues(c, FALSE) = [ok |-> TRUE, vs |-> vs]
     /\ Read(pr).ok /\ Read(pr).vs = vs
     /\ Read(Out(Op("implode", 0, 0, 0, <<>>), vs)).vs = <<L(vs)>>
     /\ Out(Op("explode", 0, 0, 0, <<>>), <<L(vs)>>) = c
     /\ \A i \in 0..3 : Out(Op("nth", i, 0, 0, <<>>), <<L(vs)>>) = (IF i < Len(vs) THEN Compact(vs[i + 1]) ELSE Null) \o <<10>>
     /\ \A n \in 0..3 : Read(Out(Op("head", n, 0, 0, <<>>), vs)).vs = Take(vs, n)
     /\ Out(Op("extract", 0, 0, 0, <<>>), vs) = Flat([i \in 1..Len(vs) |-> <<91>> \o Compact(vs[i]) \o <<93, 10>>])
     \* the elements of an array are what lies at the paths of length one
     /\ Out(Op("extract", 0, 0, 1, <<>>), <<L(vs)>>) = Compact(L(vs)) \o <<10>>
     /\ \A i \in 1..Len(vs) : vs[i].k = "s" =>
          LET w == Chars(vs[i].t)
              q == Quote(w)
          IN StringEnd(q, 2) = Len(q) + 1 /\ Chars(q) = w
     /\ DenoteAll(Read(pr).vs) = DenoteAll(vs)
\* the same number written differently
NumLaws ==
  /\ NumVal(<<49, 48, 48>>) = NumVal(<<49, 69, 50>>) /\ NumVal(<<48, 46, 53>>) = NumVal(<<53, 101, 45, 49>>)
  /\ NumVal(<<45, 48>>) = NumVal(<<48, 46, 48>>) /\ NumVal(<<45, 49>>) # NumVal(<<49>>) /\ NumVal(<<49>>) # NumVal(<<49, 48>>)
Init == vs \in Streams /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED vs
Holds == ph = 1 => Laws /\ NumLaws
Emit == Gen => PrintT("GEN" \o ToJson([s |-> CompactLines(vs)]))
===============================================================================
