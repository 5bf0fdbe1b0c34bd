-------------------------------- MODULE JsonDoc --------------------------------
(* Documents in the JSON variants that salvage and JsonStreamParser accept,   *)
(* by structure: how a document is written down (Surface), which values it    *)
(* denotes (Meaning), and how JsonStreamParser reports it (Events).           *)
(*                                                                            *)
(*  string   [k |-> "s", pre, q, parts]   q the quotes that enclose it        *)
(*    part   [t |-> "c", c]  the character itself                             *)
(*           [t |-> "e", c]  backslash and the letter c                       *)
(*           [t |-> "x" | "u" | "U" | "b" | "o", d]  \xDD \uDDDD \UDDDDDDDD   *)
(*                                             \u{D...} and octal \D, \DD, \DDD *)
(*           [t |-> "n", d]  backslash and a line end (denotes nothing)       *)
(*  number   [k |-> "n", sg, base, pfx, int, dot, frac, e, esg, exp, suf]     *)
(*  word     [k |-> "w", w]      identifier (keys only) [k |-> "i", w]        *)
(*  array    [k |-> "l", open, close, items, e, tc, tg]  items of [a, v, b]   *)
(*  object   [k |-> "o", items, e, tc, tg]  items of [a, key, b, c, v, d]     *)
(*  document [items |-> <<[g, v]...>>, end]                                   *)
(* a, b, c, d, e, g, tg and end are gaps: whitespace and comments as written. *)
EXTENDS JsonStream

PartSurface(p) ==
  CASE p.t = "c" -> <<p.c>>
    [] p.t = "e" -> <<Back, p.c>>
    [] p.t = "x" -> <<Back, 120>> \o p.d
    [] p.t = "u" -> <<Back, 117>> \o p.d
    [] p.t = "U" -> <<Back, 85>> \o p.d
    [] p.t = "b" -> <<Back, 117, 123>> \o p.d \o <<125>>
    [] p.t \in {"o", "n"} -> <<Back>> \o p.d
StrSurface(v) == v.pre \o v.q \o Flat([i \in 1..Len(v.parts) |-> PartSurface(v.parts[i])]) \o v.q
NumSurface(v) == v.sg \o v.pfx \o v.int \o (IF v.dot THEN <<46>> ELSE <<>>) \o v.frac \o v.e \o v.esg \o v.exp \o v.suf

RECURSIVE Surface(_)
Surface(v) ==
  CASE v.k = "s" -> StrSurface(v)
    [] v.k = "n" -> NumSurface(v)
    [] v.k \in {"w", "i"} -> v.w
    [] v.k = "l" -> v.open \o v.e \o
                    Join([i \in 1..Len(v.items) |-> v.items[i].a \o Surface(v.items[i].v) \o v.items[i].b], <<44>>) \o
                    (IF v.tc THEN <<44>> \o v.tg ELSE <<>>) \o v.close
    [] v.k = "o" -> <<123>> \o v.e \o
                    Join([i \in 1..Len(v.items) |-> LET f == v.items[i] IN
                          f.a \o Surface(f.key) \o f.b \o <<58>> \o f.c \o Surface(f.v) \o f.d], <<44>>) \o
                    (IF v.tc THEN <<44>> \o v.tg ELSE <<>>) \o <<125>>
DocSurface(d) == Flat([i \in 1..Len(d.items) |-> d.items[i].g \o Surface(d.items[i].v)]) \o d.end

-------------------------------------------------------------------------------
\* Meaning.
EscapeLetter(c) ==
  CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] c = 97 -> 7
    [] OTHER -> c
\* Hexadecimal digits as a code point; beyond the last code point any larger number does.
RECURSIVE HexCap(_)
HexCap(w) == IF w = <<>> THEN 0
             ELSE LET x == HexCap(Front(w)) IN IF x > 1114111 THEN x ELSE x * 16 + DigitVal(Last(w))
PartUnits(p) ==
  CASE p.t = "c" -> <<p.c>>
    [] p.t = "e" -> <<EscapeLetter(p.c)>>
    [] p.t \in {"x", "u", "U", "b"} -> <<HexCap(p.d)>>
    [] p.t = "o" -> <<BaseVal(p.d, 8)>>
    [] p.t = "n" -> <<>>
StrChars(v) == Pair(Flat([i \in 1..Len(v.parts) |-> PartUnits(v.parts[i])]))

\* Numbers of any size in base b, as decimal digits (least significant first while computing).
RECURSIVE MulAdd(_, _, _)
MulAdd(d, b, c) == IF d = <<>> THEN (IF c = 0 THEN <<>> ELSE <<(c % 10)>> \o MulAdd(<<>>, b, c \div 10))
                   ELSE LET x == d[1] * b + c IN <<x % 10>> \o MulAdd(Tail(d), b, x \div 10)
RECURSIVE ToDec(_, _)
ToDec(w, b) == IF w = <<>> THEN <<>> ELSE MulAdd(ToDec(Front(w), b), b, DigitVal(Last(w)))
NoSep(w) == SelectSeq(w, LAMBDA c : c # 95)
NumMeaning(v) ==
  LET neg == v.sg = <<45>>
      ex == (IF v.esg = <<45>> THEN -1 ELSE 1) * BaseVal(NoSep(v.exp), 10)
      fr == NoSep(v.frac)
  IN IF v.base # 10 THEN NumNorm(neg, Reverse(ToDec(NoSep(v.int), v.base)), 0)
     ELSE NumNorm(neg, Vals(NoSep(v.int) \o fr), ex - Len(fr))

WTrue == {True, <<84, 114, 117, 101>>}
WFalse == {False, <<70, 97, 108, 115, 101>>}
WNull == {Null, <<78, 111, 110, 101>>}
WordMeaning(w, nan) ==
  CASE w \in WTrue -> <<"w", True>> [] w \in WFalse -> <<"w", False>> [] w \in WNull -> <<"w", Null>>
    [] w \in {NaN, <<43>> \o NaN, <<45>> \o NaN} /\ nan -> <<"w", NaN>>
    [] w \in {Infinity, <<43>> \o Infinity} /\ nan -> <<"w", Infinity>>
    [] w = MinusInfinity /\ nan -> <<"w", w>>
    [] OTHER -> <<"s", w>>
RECURSIVE Meaning(_, _)
Meaning(v, nan) ==
  CASE v.k = "s" -> <<"s", StrChars(v)>>
    [] v.k = "n" -> NumMeaning(v)
    [] v.k = "w" -> WordMeaning(v.w, nan)
    [] v.k = "i" -> <<"s", v.w>>
    [] v.k = "l" -> <<"l", [i \in 1..Len(v.items) |-> Meaning(v.items[i].v, nan)]>>
    [] v.k = "o" -> <<"o", [i \in 1..Len(v.items) |-> <<Meaning(v.items[i].key, nan)[2], Meaning(v.items[i].v, nan)>>]>>
DocMeaning(d, nan) == [i \in 1..Len(d.items) |-> Meaning(d.items[i].v, nan)]

-------------------------------------------------------------------------------
\* JsonStreamParser: every value is announced where it starts and delivered, repaired, where it ends, both with its path.
FixPart(q, p) ==
  CASE p.t = "c" /\ p.c = 10 -> <<Back, 110>>
    [] p.t = "c" /\ p.c = 13 -> <<Back, 114>>
    [] OTHER -> PartSurface(p)
\* Any JSON string that denotes the same characters will do, so strings are compared by what they denote.
PathKey(key) == IF key.k = "i" THEN key.w ELSE StrChars(key)
TokenOk(w) == w \in Atoms \/ NumberEnd(w, 1) = Len(w) + 1

EvType(v) == CASE v.k = "o" -> 0 [] v.k = "l" -> 1 [] v.k = "s" -> 2
               [] v.k \in {"w", "n"} -> IF TokenOk(Surface(v)) THEN 3 ELSE 2
Listed == <<91, 42, 93>>
RECURSIVE Events(_, _)
Events(v, p) ==
  <<[b |-> TRUE, p |-> p, ty |-> EvType(v)]>> \o
  (CASE v.k = "l" -> Flat([i \in 1..Len(v.items) |-> Events(v.items[i].v, p \o Listed)])
     [] v.k = "o" -> Flat([i \in 1..Len(v.items) |-> Events(v.items[i].v, p \o <<46>> \o PathKey(v.items[i].key))])
     [] OTHER -> <<>>) \o
  <<[b |-> FALSE, p |-> p, v |-> v]>>
DocEvents(d) == Flat([i \in 1..Len(d.items) |-> Events(d.items[i].v, <<36>>)])

\* The repaired value as tokens, so that texts can be compared token by token:
\* <<"p", text>> punctuation and whitespace, <<"s", characters>> strings, <<"t", text>> other tokens.
P(w) == IF w = <<>> THEN <<>> ELSE <<<<"p", w>>>>
Scalar(v) ==
  CASE v.k = "s" -> <<<<"s", StrChars(v)>>>>
    [] v.k = "i" -> <<<<"s", v.w>>>>
    [] OTHER -> IF TokenOk(Surface(v)) THEN <<<<"t", Surface(v)>>>> ELSE <<<<"s", Surface(v)>>>>
JoinT(q, comma) == IF q = <<>> THEN <<>>
                   ELSE q[1] \o Flat([i \in 1..(Len(q) - 1) |-> <<comma>> \o q[i + 1]])
Gp(w, keep) == IF keep THEN [i \in 1..Len(w) |-> <<"p", <<w[i]>>>>] ELSE <<>>
Comma == <<"p", <<44>>>>
RECURSIVE Tokens(_, _)
Tokens(v, keep) ==
  CASE v.k = "l" -> P(<<91>>) \o Gp(v.e, keep) \o
         JoinT([i \in 1..Len(v.items) |-> Gp(v.items[i].a, keep) \o Tokens(v.items[i].v, keep) \o Gp(v.items[i].b, keep)], Comma) \o
         (IF v.tc /\ keep THEN <<Comma>> \o Gp(v.tg, keep) ELSE <<>>) \o P(<<93>>)
    [] v.k = "o" -> P(<<123>>) \o Gp(v.e, keep) \o
         JoinT([i \in 1..Len(v.items) |-> LET f == v.items[i] IN
                Gp(f.a, keep) \o Scalar(f.key) \o Gp(f.b, keep) \o P(<<58>>) \o Gp(f.c, keep) \o Tokens(f.v, keep) \o Gp(f.d, keep)], Comma) \o
         (IF v.tc /\ keep THEN <<Comma>> \o Gp(v.tg, keep) ELSE <<>>) \o P(<<125>>)
    [] OTHER -> Scalar(v)
DocTokens(d, keep) ==
  Flat([i \in 1..Len(d.items) |-> Gp(d.items[i].g, keep) \o Tokens(d.items[i].v, keep)]) \o Gp(d.end, keep)

Punct == {91, 93, 123, 125, 44, 58} \cup Ws
RECURSIVE Scan(_, _)
\* The tokens of a text; <<"bad">> where it is not a sequence of JSON tokens.
Scan(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] \in Punct THEN <<<<"p", <<s[i]>>>>>> \o Scan(s, i + 1)
  ELSE IF s[i] = Quot THEN (LET j == StringEnd(s, i + 1)
                            IN IF j = 0 THEN <<<<"bad", i>>>> ELSE <<<<"s", Chars(SubSeq(s, i, j - 1))>>>> \o Scan(s, j))
  ELSE LET J == {j \in i..Len(s) : \A x \in i..j : s[x] \notin Punct \cup {Quot}}
           j == CHOOSE j \in J : \A x \in J : x <= j
       IN <<<<"t", SubSeq(s, i, j)>>>> \o Scan(s, j + 1)
===============================================================================
