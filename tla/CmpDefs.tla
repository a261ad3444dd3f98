------------------------------ MODULE CmpDefs ------------------------------
(* The order of composite values. A term is <<0, n>>, a number; <<9>>, a     *)
(* number that is not one (NaN); <<3>>, a value of void; <<1, w, t>>, the    *)
(* alternative w of a sum with payload t; <<2, ts>>, a row or a list; or     *)
(* <<6, w>>, alternative w whatever its payload.                             *)
(* Cmp is -1, 0, 1, or 2 where neither is less and they are not equal.       *)
EXTENDS Integers, Sequences
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE Cmp(_, _), Lex(_, _, _)
Lex(s, t, p) ==
  IF p > Len(s) \/ p > Len(t) THEN Sign(Len(s), Len(t))
  ELSE LET c == Cmp(s[p], t[p]) IN IF c # 0 THEN c ELSE Lex(s, t, p + 1)
Cmp(x, y) ==
  CASE x[1] = 9 \/ y[1] = 9 -> 2
    [] x[1] = 0 /\ y[1] = 0 -> Sign(x[2], y[2])
    [] x[1] = 3 /\ y[1] = 3 -> 0
    [] x[1] \in {1, 6} /\ y[1] \in {1, 6} /\ (x[1] = 6 \/ y[1] = 6 \/ x[2] # y[2]) -> Sign(x[2], y[2])
    [] x[1] = 1 /\ y[1] = 1 -> Cmp(x[3], y[3])
    [] x[1] = 2 /\ y[1] = 2 -> Lex(x[2], y[2], 1)
\* Reads a term in prefix order; what stands alone stands for the alternative
\* it names: 4 w t a bare value, 5 none or a null pointer.
RECURSIVE Parse(_, _), ParseMany(_, _, _)
ParseMany(s, p, n) ==
  IF n = 0 THEN [t |-> <<>>, q |-> p]
  ELSE LET a == Parse(s, p) r == ParseMany(s, a.q, n - 1) IN [t |-> <<a.t>> \o r.t, q |-> r.q]
Parse(s, p) ==
  CASE s[p] = 0 -> [t |-> <<0, s[p + 1]>>, q |-> p + 2]
    [] s[p] \in {3, 9} -> [t |-> <<s[p]>>, q |-> p + 1]
    [] s[p] = 5 -> [t |-> <<1, 0, <<3>>>>, q |-> p + 1]
    [] s[p] = 6 -> [t |-> <<6, s[p + 1]>>, q |-> p + 2]
    [] s[p] \in {1, 4} -> LET a == Parse(s, p + 2) IN [t |-> <<1, s[p + 1], a.t>>, q |-> a.q]
    [] s[p] = 2 -> LET r == ParseMany(s, p + 2, s[p + 1]) IN [t |-> <<2, r.t>>, q |-> r.q]
\* What each operator says of a comparison.
B(b) == IF b THEN 1 ELSE 0
Equate(c) == <<B(c = 0), B(c # 0), B(c = 0)>>
Order(c) == Equate(c) \o <<B(c = -1), B(c \in {-1, 0}), B(c = 1), B(c \in {0, 1}), c, c>>
Flip(c) == IF c = 2 THEN 2 ELSE -c
=============================================================================
