------------------------------ MODULE SlicePath ------------------------------
(* Data slice paths.  A path is a sequence of actions                           *)
(*   [a |-> "keys"], [a |-> "values"], [a |-> "explode"],                       *)
(*   [a |-> "attr", n |-> characters, u |-> its UTF-8 bytes, i |-> identifier?] *)
(* A string is a sequence of characters.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Alphabet == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
  "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
  "0","1","2","3","4","5","6","7","8","9","+","/">>
Six(x) == Alphabet[x + 1]
RECURSIVE B64(_, _)
B64(u, i) ==
  IF i > Len(u) THEN <<>>
  ELSE LET n == Len(u) - i + 1
           a == u[i]
           b == IF n > 1 THEN u[i + 1] ELSE 0
           c == IF n > 2 THEN u[i + 2] ELSE 0
       IN << Six(a \div 4), Six((a % 4) * 16 + b \div 16),
             IF n > 1 THEN Six((b % 16) * 4 + c \div 64) ELSE "=",
             IF n > 2 THEN Six(c % 64) ELSE "=" >> \o B64(u, i + 3)

Keys == <<".","g","e","t","_","k","e","y","s","(",")">>
Values == <<".","g","e","t","_","v","a","l","u","e","s","(",")">>
Explode == <<"[",":","]">>
GetAttr == <<".","g","e","t","_","a","t","t","r","(">>
Str1(x) == CASE x.a = "keys" -> Keys
             [] x.a = "values" -> Values
             [] x.a = "explode" -> Explode
             [] OTHER -> IF x.i THEN <<".">> \o x.n ELSE GetAttr \o <<"\"">> \o B64(x.u, 1) \o <<"\"", ")">>
RECURSIVE Str(_, _)
Str(p, i) == IF i > Len(p) THEN <<>> ELSE Str1(p[i]) \o Str(p, i + 1)
ToStr(p) == Str(p, 1)

\* All spellings of one action: attributes may always be written in base64,
\* in either quotes, and identifiers also after a dot.
Spellings(x) == IF x.a # "attr" THEN {Str1(x)}
                ELSE {GetAttr \o <<q>> \o B64(x.u, 1) \o <<q, ")">> : q \in {"\"", "'"}}
                     \cup (IF x.i THEN {<<".">> \o x.n} ELSE {})
StartsAt(w, i, p) == i + Len(p) - 1 <= Len(w) /\ SubSeq(w, i, i + Len(p) - 1) = p
RECURSIVE Spells(_, _, _, _)      \* does w from position i spell the path p from j ?
Spells(w, i, p, j) ==
  IF j > Len(p) THEN i = Len(w) + 1
  ELSE \E s \in Spellings(p[j]) : StartsAt(w, i, s) /\ Spells(w, i + Len(s), p, j + 1)

\* Is w derivable at all?  IdentEnd(w, i) are the positions after an identifier
\* starting at i (ASCII; other characters are never generated in raw strings).
Letters == {Alphabet[k] : k \in 1..52} \cup {"_"}
Digits == {Alphabet[k] : k \in 53..62}
B64Chars == {Alphabet[k] : k \in 1..64}
RECURSIVE Run(_, _, _)
Run(w, i, C) == IF i <= Len(w) /\ w[i] \in C THEN Run(w, i + 1, C) ELSE i
RECURSIVE Derivable(_, _)
Quoted(w, i) ==    \* position after a well-formed quoted base64 text starting at i, or 0
  IF i > Len(w) \/ w[i] \notin {"\"", "'"} THEN 0
  ELSE LET q == w[i]
           e == Run(w, i + 1, B64Chars)
           f == Run(w, e, {"="})
           n == f - (i + 1)
       IN IF n % 4 = 0 /\ f - e <= 2 /\ (n = 0 => f = e) /\ StartsAt(w, f, <<q, ")">>) THEN f + 2 ELSE 0
Derivable(w, i) ==
  IF i = Len(w) + 1 THEN TRUE
  ELSE \/ StartsAt(w, i, Keys) /\ Derivable(w, i + Len(Keys))
       \/ StartsAt(w, i, Values) /\ Derivable(w, i + Len(Values))
       \/ StartsAt(w, i, Explode) /\ Derivable(w, i + 3)
       \/ StartsAt(w, i, GetAttr) /\ Quoted(w, i + Len(GetAttr)) # 0 /\ Derivable(w, Quoted(w, i + Len(GetAttr)))
       \/ /\ w[i] = "." /\ i < Len(w) /\ w[i + 1] \in Letters
          /\ LET e == Run(w, i + 1, Letters \cup Digits)
             IN Derivable(w, e)

(* Schemas: a function from node names to                                       *)
(*   [k |-> "prim"], [k |-> "list", e |-> <<item>>], [k |-> "dict", e |-> <<key, value>>], *)
(*   [k |-> "ent", e |-> <<node...>>, n |-> <<attribute name...>>]  (names sorted) *)
Succ(g, x) ==    \* sequence of <<action, node>>
  LET d == g[x] IN
  CASE d.k = "prim" -> <<>>
    [] d.k = "list" -> <<[a |-> <<"explode", "">>, x |-> d.e[1]]>>
    [] d.k = "dict" -> <<[a |-> <<"keys", "">>, x |-> d.e[1]], [a |-> <<"values", "">>, x |-> d.e[2]]>>
    [] d.k = "ent" -> [i \in 1..Len(d.e) |-> [a |-> <<"attr", d.n[i]>>, x |-> d.e[i]]]
Step(g, x, a) == {Succ(g, x)[i].x : i \in {j \in 1..Len(Succ(g, x)) : Succ(g, x)[j].a = a}}
RECURSIVE Walk(_, _, _, _)       \* node reached by the path, <<>> when it does not apply
Walk(g, x, p, i) == IF i > Len(p) THEN <<x>>
                    ELSE LET N == Step(g, x, p[i]) IN IF N = {} THEN <<>> ELSE Walk(g, CHOOSE y \in N : TRUE, p, i + 1)
RECURSIVE PathsAt(_, _, _)       \* all paths of exactly n actions
PathsAt(g, x, n) == IF n = 0 THEN {<<>>}
                    ELSE UNION {{<<Succ(g, x)[i].a>> \o q : q \in PathsAt(g, Succ(g, x)[i].x, n - 1)} : i \in 1..Len(Succ(g, x))}
Paths(g, x, n) == UNION {PathsAt(g, x, m) : m \in 0..n}
===============================================================================
