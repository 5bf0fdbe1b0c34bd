------------------------------ MODULE JsonStream ------------------------------
(* What each kd.json_stream transformation makes of a text of                 *)
(* whitespace-separated JSON values.  The text arrives in chunks, but only    *)
(* the concatenation of the chunks counts.                                    *)
EXTENDS JsonText

Sel(vs, P(_)) == SelectSeq(vs, P)
Take(q, n) == SubSeq(q, 1, IF n < 0 THEN 0 ELSE IF n > Len(q) THEN Len(q) ELSE n)

\* Matching of paths (sequences of <<"i", index>> and <<"k", key>>), by mode m with parameters c (number) and w (text).
Matches(m, c, w, p) ==
  CASE m = 0 -> Len(p) = c
    [] m = 1 -> p # <<>> /\ Last(p) = <<"k", w>>
    [] m = 2 -> p # <<>> /\ Last(p) = <<"i", c>>
    [] m = 3 -> p = <<<<"k", w>>>>
RECURSIVE Num(_)
Num(n) == IF n < 10 THEN <<48 + n>> ELSE Num(n \div 10) \o <<48 + (n % 10)>>
PathText(p) == <<91>> \o Join([i \in 1..Len(p) |-> IF p[i][1] = "i" THEN Num(p[i][2]) ELSE Quote(p[i][2])], <<44>>) \o <<93>>
RECURSIVE Extract(_, _, _, _, _, _)
\* The matched parts of v (which lies at path p), outermost only, in the order of the text.
Extract(v, p, m, c, w, wp) ==
  IF Matches(m, c, w, p) THEN <<IF wp THEN <<91>> \o PathText(p) \o <<44>> \o Compact(v) \o <<93>> ELSE Compact(v)>>
  ELSE CASE v.k = "l" -> Flat([i \in 1..Len(v.e) |-> Extract(v.e[i], Append(p, <<"i", i - 1>>), m, c, w, wp)])
         [] v.k = "o" -> Flat([i \in 1..Len(v.e) |-> Extract(v.e[i][2], Append(p, <<"k", Chars(v.e[i][1])>>), m, c, w, wp)])
         [] OTHER -> <<>>
ExtractLine(v, m, c, w, wp) == <<91>> \o Join(Extract(v, <<>>, m, c, w, wp), <<44>>) \o <<93, 10>>

RECURSIVE Strings(_)
Strings(v) == CASE v.k = "s" -> Chars(v.t)
                [] v.k = "l" -> Flat([i \in 1..Len(v.e) |-> Strings(v.e[i])])
                [] OTHER -> <<>>

Nth(v, n) == IF v.k = "l" /\ n >= 0 /\ n < Len(v.e) THEN Compact(v.e[n + 1]) ELSE Null

\* The output of transformation o = [kind, a, b, c, w] on values vs.
Out(o, vs) ==
  CASE o.kind \in {"compactify", "chunk"} -> CompactLines(vs)
    [] o.kind = "head" -> CompactLines(Take(vs, o.a))
    [] o.kind = "prettify" -> Join([i \in 1..Len(vs) |-> Pretty(vs[i], o.w, 0)], <<10>>)
    [] o.kind = "objects" -> CompactLines(Sel(vs, LAMBDA v : v.k = "o" /\ v.e # <<>>))
    [] o.kind = "arrays" -> CompactLines(Sel(vs, LAMBDA v : v.k = "l" /\ v.e # <<>>))
    [] o.kind = "nonnull" -> CompactLines(Sel(vs, LAMBDA v : ~(v.k = "a" /\ v.t = Null)))
    [] o.kind = "extract" -> Flat([i \in 1..Len(vs) |-> ExtractLine(vs[i], o.a, o.c, o.w, o.b = 1)])
    [] o.kind = "implode" -> Compact([k |-> "l", e |-> vs]) \o <<10>>
    [] o.kind = "explode" -> Flat([i \in 1..Len(vs) |-> IF vs[i].k = "l" THEN CompactLines(vs[i].e) ELSE <<>>])
    [] o.kind = "nth" -> Flat([i \in 1..Len(vs) |-> Nth(vs[i], o.a) \o <<10>>])
    [] o.kind = "unquote" -> Flat([i \in 1..Len(vs) |-> Strings(vs[i])])

RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] = 10 THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ Last(s) = 10 THEN TrimR(Front(s)) ELSE s
Trim(s) == TrimR(TrimL(s))

SameText(kind, x, y) == IF kind = "prettify" THEN Trim(x) = Trim(y) ELSE x = y
===============================================================================
