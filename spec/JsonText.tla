------------------------------- MODULE JsonText -------------------------------
(* JSON texts (RFC 8259) over sequences of code points: reading, printing,    *)
(* and the values that texts denote.                                          *)
(*                                                                            *)
(* A value read from a text keeps its tokens:                                 *)
(*   [k |-> "a", t]  true, false, null (and NaN, Infinity, where allowed)     *)
(*   [k |-> "n", t]  a number      [k |-> "s", t]  a string with its quotes   *)
(*   [k |-> "l", e]  an array: sequence of values                             *)
(*   [k |-> "o", e]  an object: sequence of <<key token, value>>              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Ws == {32, 9, 10, 13}
Digit == 48..57
Hex == Digit \cup 65..70 \cup 97..102
Quot == 34
Back == 92

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1
Starts(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w

RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF At(s, i) \in Ws THEN SkipWs(s, i + 1) ELSE i
RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF At(s, i) \in Digit THEN SkipDigits(s, i + 1) ELSE i

True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Null == <<110, 117, 108, 108>>
NaN == <<78, 97, 78>>
Infinity == <<73, 110, 102, 105, 110, 105, 116, 121>>
MinusInfinity == <<45>> \o Infinity
Atoms == {True, False, Null}
NonFinite == {NaN, Infinity, MinusInfinity}

\* The position after the number that starts at i, or 0.
NumberEnd(s, i) ==
  LET a == IF At(s, i) = 45 THEN i + 1 ELSE i
      b == IF At(s, a) = 48 THEN a + 1 ELSE SkipDigits(s, a)
      c == IF At(s, b) = 46 THEN SkipDigits(s, b + 1) ELSE b
      x == IF At(s, c) \in {69, 101} THEN (IF At(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE 0
      d == IF x > 0 THEN SkipDigits(s, x) ELSE c
  IN IF b = a \/ (At(s, b) = 46 /\ c = b + 1) \/ (x > 0 /\ d = x) THEN 0 ELSE d

\* The position after the string whose opening quote is at i - 1, or 0.
RECURSIVE StringEnd(_, _)
StringEnd(s, i) ==
  LET c == At(s, i)
  IN IF c = Quot THEN i + 1
     ELSE IF c < 32 THEN 0
     ELSE IF c # Back THEN StringEnd(s, i + 1)
     ELSE IF At(s, i + 1) \in {34, 92, 47, 98, 102, 110, 114, 116} THEN StringEnd(s, i + 2)
     ELSE IF At(s, i + 1) = 117 /\ \A d \in 2..5 : At(s, i + d) \in Hex THEN StringEnd(s, i + 6)
     ELSE 0

Bad == [j |-> 0, v |-> [k |-> "bad"]]
Tok(k, s, i, j) == [j |-> j, v |-> [k |-> k, t |-> SubSeq(s, i, j - 1)]]

RECURSIVE Value(_, _, _), Items(_, _, _, _), Fields(_, _, _, _)
\* The value that starts at i: the position after it (0 if there is none) and the value.
Value(s, i, nan) ==
  LET c == At(s, i)
  IN IF c = Quot THEN (LET j == StringEnd(s, i + 1) IN IF j = 0 THEN Bad ELSE Tok("s", s, i, j))
     ELSE IF c = 91 THEN
       LET a == SkipWs(s, i + 1)
       IN IF At(s, a) = 93 THEN [j |-> a + 1, v |-> [k |-> "l", e |-> <<>>]] ELSE Items(s, a, <<>>, nan)
     ELSE IF c = 123 THEN
       LET a == SkipWs(s, i + 1)
       IN IF At(s, a) = 125 THEN [j |-> a + 1, v |-> [k |-> "o", e |-> <<>>]] ELSE Fields(s, a, <<>>, nan)
     ELSE LET A == {w \in Atoms \cup (IF nan THEN NonFinite ELSE {}) : Starts(s, i, w)}
          IN IF A # {} THEN (LET w == CHOOSE w \in A : TRUE IN Tok("a", s, i, i + Len(w)))
             ELSE LET j == NumberEnd(s, i) IN IF j = 0 THEN Bad ELSE Tok("n", s, i, j)
Items(s, i, e, nan) ==
  LET r == Value(s, i, nan)
      a == SkipWs(s, r.j)
  IN IF r.j = 0 THEN Bad
     ELSE IF At(s, a) = 44 THEN Items(s, SkipWs(s, a + 1), Append(e, r.v), nan)
     ELSE IF At(s, a) = 93 THEN [j |-> a + 1, v |-> [k |-> "l", e |-> Append(e, r.v)]]
     ELSE Bad
Fields(s, i, e, nan) ==
  IF At(s, i) # Quot THEN Bad ELSE
  LET j == StringEnd(s, i + 1)
      c == IF j = 0 THEN 0 ELSE SkipWs(s, j)
      r == IF j = 0 \/ At(s, c) # 58 THEN Bad ELSE Value(s, SkipWs(s, c + 1), nan)
      a == IF r.j = 0 THEN 0 ELSE SkipWs(s, r.j)
  IN IF r.j = 0 THEN Bad
     ELSE LET x == Append(e, <<SubSeq(s, i, j - 1), r.v>>)
          IN IF At(s, a) = 44 THEN Fields(s, SkipWs(s, a + 1), x, nan)
             ELSE IF At(s, a) = 125 THEN [j |-> a + 1, v |-> [k |-> "o", e |-> x]]
             ELSE Bad

Container(v) == v.k \in {"l", "o"}
RECURSIVE Stream(_, _, _)
\* All the values of a text from i on: whitespace separates them.
Stream(s, i, nan) ==
  LET a == SkipWs(s, i)
  IN IF a > Len(s) THEN [ok |-> TRUE, vs |-> <<>>]
     ELSE LET r == Value(s, a, nan)
          IN IF r.j = 0 \/ (r.j <= Len(s) /\ At(s, r.j) \notin Ws) THEN [ok |-> FALSE, vs |-> <<>>]
             ELSE LET q == Stream(s, r.j, nan) IN [ok |-> q.ok, vs |-> <<r.v>> \o q.vs]
Values(s, nan) == Stream(s, 1, nan)

RECURSIVE Lines(_)
Lines(s) ==
  IF \A i \in 1..Len(s) : s[i] # 10 THEN <<s>>
  ELSE LET i == CHOOSE i \in 1..Len(s) : s[i] = 10 /\ \A j \in 1..(i - 1) : s[j] # 10
       IN <<SubSeq(s, 1, i - 1)>> \o Lines(SubSeq(s, i + 1, Len(s)))
\* A text with one value to a line (blank lines hold none).
LineValues(s, nan) ==
  LET L == SelectSeq(Lines(s), LAMBDA x : x # <<>>)
      R == [i \in 1..Len(L) |-> Value(L[i], 1, nan)]
  IN [ok |-> \A i \in 1..Len(L) : R[i].j = Len(L[i]) + 1, vs |-> [i \in 1..Len(L) |-> R[i].v]]

-------------------------------------------------------------------------------
\* Printing.
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)

RECURSIVE Compact(_)
Compact(v) ==
  CASE v.k = "l" -> <<91>> \o Join([i \in 1..Len(v.e) |-> Compact(v.e[i])], <<44>>) \o <<93>>
    [] v.k = "o" -> <<123>> \o Join([i \in 1..Len(v.e) |-> v.e[i][1] \o <<58>> \o Compact(v.e[i][2])], <<44>>) \o <<125>>
    [] OTHER -> v.t
CompactLines(vs) == Flat([i \in 1..Len(vs) |-> Compact(vs[i]) \o <<10>>])

RECURSIVE Rep(_, _)
Rep(w, n) == IF n <= 0 THEN <<>> ELSE w \o Rep(w, n - 1)
RECURSIVE Pretty(_, _, _)
Pretty(v, ind, d) ==
  LET nl(n) == <<10>> \o Rep(ind, n)
      body(x) == nl(d + 1) \o x
  IN CASE v.k \in {"l", "o"} /\ v.e = <<>> -> Compact(v)
       [] v.k = "l" -> <<91>> \o Join([i \in 1..Len(v.e) |-> body(Pretty(v.e[i], ind, d + 1))], <<44>>) \o nl(d) \o <<93>>
       [] v.k = "o" -> <<123>> \o Join([i \in 1..Len(v.e) |->
                                        body(v.e[i][1] \o <<58, 32>> \o Pretty(v.e[i][2], ind, d + 1))], <<44>>) \o nl(d) \o <<125>>
       [] OTHER -> v.t

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
QuoteChar(c) ==
  CASE c = Back -> <<92, 92>> [] c = Quot -> <<92, 34>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>>
    [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>>
    [] c < 32 -> <<92, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
    [] OTHER -> <<c>>
\* The string token with only the necessary escapes.
Quote(w) == <<Quot>> \o Flat([i \in 1..Len(w) |-> QuoteChar(w[i])]) \o <<Quot>>

-------------------------------------------------------------------------------
\* What texts denote.
DigitVal(c) == IF c \in Digit THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
RECURSIVE BaseVal(_, _)
BaseVal(w, b) == IF w = <<>> THEN 0 ELSE BaseVal(Front(w), b) * b + DigitVal(Last(w))

\* UTF-16 units (and code points) to code points; an unpaired surrogate is U+FFFD.
Lead(c) == c >= 55296 /\ c <= 56319
Trail(c) == c >= 56320 /\ c <= 57343
RECURSIVE Pair(_)
Pair(w) ==
  IF w = <<>> THEN <<>>
  ELSE IF Lead(w[1]) /\ Len(w) > 1 /\ Trail(w[2])
       THEN <<65536 + (w[1] - 55296) * 1024 + (w[2] - 56320)>> \o Pair(SubSeq(w, 3, Len(w)))
  ELSE IF Lead(w[1]) \/ Trail(w[1]) \/ w[1] > 1114111 THEN <<65533>> \o Pair(Tail(w))
  ELSE <<w[1]>> \o Pair(Tail(w))

RECURSIVE Units(_, _)
\* The units of the string token s from position i to the closing quote.
Units(s, i) ==
  IF i >= Len(s) THEN <<>>
  ELSE IF s[i] # Back THEN <<s[i]>> \o Units(s, i + 1)
  ELSE LET c == s[i + 1]
       IN IF c = 117 THEN <<BaseVal(SubSeq(s, i + 2, i + 5), 16)>> \o Units(s, i + 6)
          ELSE <<CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c>>
               \o Units(s, i + 2)
Chars(t) == Pair(Units(t, 2))

\* A number as sign, significant digits and the exponent of the last of them; zero has no digits.
RECURSIVE StripR(_, _)
StripR(d, e) == IF d # <<>> /\ Last(d) = 0 THEN StripR(Front(d), e + 1) ELSE <<d, e>>
RECURSIVE StripL(_)
StripL(d) == IF d # <<>> /\ d[1] = 0 THEN StripL(Tail(d)) ELSE d
NumNorm(neg, digits, e) ==
  LET x == StripR(StripL(digits), e)
  IN IF x[1] = <<>> THEN <<"n", FALSE, <<>>, 0>> ELSE <<"n", neg, x[1], x[2]>>
Vals(w) == [i \in 1..Len(w) |-> DigitVal(w[i])]
NumVal(t) ==
  LET neg == t[1] = 45
      a == IF neg THEN 2 ELSE 1
      b == SkipDigits(t, a)
      c == IF At(t, b) = 46 THEN SkipDigits(t, b + 1) ELSE b
      x == IF At(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1
      ex == IF c > Len(t) THEN 0
            ELSE (IF At(t, c + 1) = 45 THEN -1 ELSE 1) * BaseVal(SubSeq(t, x, Len(t)), 10)
      fr == IF c > b THEN SubSeq(t, b + 1, c - 1) ELSE <<>>
  IN NumNorm(neg, Vals(SubSeq(t, a, b - 1) \o fr), ex - Len(fr))

RECURSIVE Denote(_)
Denote(v) ==
  CASE v.k = "l" -> <<"l", [i \in 1..Len(v.e) |-> Denote(v.e[i])]>>
    [] v.k = "o" -> <<"o", [i \in 1..Len(v.e) |-> <<Chars(v.e[i][1]), Denote(v.e[i][2])>>]>>
    [] v.k = "s" -> <<"s", Chars(v.t)>>
    [] v.k = "n" -> NumVal(v.t)
    [] OTHER -> <<"w", v.t>>
DenoteAll(vs) == [i \in 1..Len(vs) |-> Denote(vs[i])]

RECURSIVE Depth(_)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Depth(v) ==
  CASE v.k = "l" -> 1 + MaxOf({0} \cup {Depth(v.e[i]) : i \in 1..Len(v.e)})
    [] v.k = "o" -> 1 + MaxOf({0} \cup {Depth(v.e[i][2]) : i \in 1..Len(v.e)})
    [] OTHER -> 0
===============================================================================
