------------------------------- MODULE CmpMC -------------------------------
(* The laws of the order, over all small terms of one type.                  *)
EXTENDS CmpDefs, FiniteSets, TLC
CONSTANT Kind, Broken
VARIABLES x, y, z
Nums == {<<0, n>> : n \in 0..1} \cup {<<9>>}
Opt(s) == {<<1, 0, <<3>>>>} \cup {<<1, 1, t>> : t \in s}
Res(s, u) == {<<1, 0, t>> : t \in s} \cup {<<1, 1, t>> : t \in u}
Pairs(s, u) == {<<2, <<a, b>>>> : a \in s, b \in u}
Lists(s, n) == UNION {{<<2, f>> : f \in [1..k -> s]} : k \in 0..n}
Terms == CASE Kind = 1 -> Opt(Opt(Nums))
           [] Kind = 2 -> Res(Lists(Nums, 1), Opt(Nums))
           [] Kind = 3 -> Pairs(Opt(Nums), Nums)
           [] Kind = 4 -> Lists(Nums, 2)
           [] Kind = 5 -> Lists(Opt(Nums), 2)
RECURSIVE Odd(_)
Odd(t) == CASE t[1] = 9 -> TRUE
            [] t[1] \in {0, 3} -> FALSE
            [] t[1] = 1 -> Odd(t[3])
            [] t[1] = 2 -> \E p \in 1..Len(t[2]) : Odd(t[2][p])
\* A comparison that forgets which alternative is which, to be refuted.
C(a, b) == IF Broken = 1 /\ a[1] = 1 /\ b[1] = 1 /\ a[2] # b[2] THEN -1 ELSE Cmp(a, b)
Init == x \in Terms /\ y \in Terms /\ z \in Terms
Next == UNCHANGED <<x, y, z>>
Antisymmetric == C(x, y) = Flip(C(y, x))
Reflexive == ~Odd(x) => C(x, x) = 0
Equality == (C(x, y) = 0) => (x = y)
Transitive == (C(x, y) \in {-1, 0} /\ C(y, z) \in {-1, 0})
              => C(x, z) \in {-1, 0} /\ (C(x, z) = 0 <=> C(x, y) = 0 /\ C(y, z) = 0)
Total == ~Odd(x) /\ ~Odd(y) => C(x, y) # 2
Laws == Antisymmetric /\ Reflexive /\ Equality /\ Transitive /\ Total
=============================================================================
