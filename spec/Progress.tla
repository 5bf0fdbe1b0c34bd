------------------------------- MODULE Progress -------------------------------
(* ProgressState (ext/tqdm/types.py): derived quantities and the round trip     *)
(* through the ProgressRecord message, including its wire format.  A missing  *)
(* number is <<>>, a missing text "none"; fractions are <<num, den>> or <<>>.     *)
EXTENDS Integers, Sequences, TLC
NoText == "none"
\* documented collapse: 0 stands for "unknown" in total and rate, "" for "no text"
Norm(p) == [p EXCEPT !.n = IF @ = <<>> THEN <<0>> ELSE @,
                     !.total = IF @ = <<0>> THEN <<>> ELSE @,
                     !.rate = IF @ = <<0>> THEN <<>> ELSE @,
                     !.unit = IF @ = "" THEN "it" ELSE @,
                     !.desc = IF @ = "" THEN NoText ELSE @,
                     !.postfix = IF @ = "" THEN NoText ELSE @]
\* q = <<num, den>> equals a / b
Eq(q, a, b) == q # <<>> /\ q[1] * b = a * q[2]
Unknown(x) == x = <<>> \/ x = <<0>>
FractionOk(p, f) == IF p.n = <<>> \/ Unknown(p.total) THEN f = <<>> ELSE Eq(f, p.n[1], p.total[1])
RemainingOk(p, f) == IF Unknown(p.rate) \/ Unknown(p.total) \/ p.n = <<>>
                     THEN f = <<>> ELSE Eq(f, p.total[1] - p.n[1], p.rate[1])
===============================================================================
