------------------------------- MODULE RowMC -------------------------------
(* Any chain of rearrangements of a small row: nothing is invented, and each *)
(* is undone or re-expressed by others.                                      *)
EXTENDS RowDefs, FiniteSets, TLC
CONSTANT Size, Broken
VARIABLES s, t
Rows(lo) == UNION {{[j \in 1..n |-> lo + j] : n \in {k}} : k \in 0..Size}
Ranges(n) == {<<x, y, z>> \in (0..n) \X (0..3) \X (0..n) : (y = 3 => z < n) /\ RIn(<<x, y, z>>, n)}
Has(u) == {u[j] : j \in 1..Len(u)}
\* A splice that loses what follows, to be refuted.
Sp(u, b, v) == IF Broken = 1 /\ b[2] = 3 THEN SubSeq(u, 1, b[1]) \o v \o SubSeq(u, RStop(b, Len(u)) + 2, Len(u))
               ELSE RSplice(u, b, v)
Init == s \in Rows(10) /\ t \in Rows(50)
Keys == [1..Len(t) -> 0..Len(s)]
Next == \/ \E b \in Ranges(Len(s)) : s' = Sp(s, b, t) /\ Len(s') <= Size /\ t' = RCut(s, b)
        \/ s' = RGather(s, [j \in 1..Len(s) |-> Len(s) - j]) /\ t' = t
        \/ \E ks \in Keys : RUnique(ks) /\ s' = RScatter(s, ks, t) /\ t' = RGather(s, SelectSeq(ks, LAMBDA k : k < Len(s)))
Laws ==
  /\ RUnique(s \o t)
  /\ \A b \in Ranges(Len(s)) :
       LET u == Sp(s, b, t) IN
       /\ Len(u) = Len(s) - Len(RCut(s, b)) + Len(t)
       /\ Has(u) = (Has(s) \ Has(RCut(s, b))) \cup Has(t)
       /\ RCut(u, <<b[1], 2, Len(t)>>) = t
       /\ Sp(u, <<b[1], 2, Len(t)>>, RCut(s, b)) = s
  /\ \A k \in 0..Len(s) : RRemove(RInsert(s, k, 99), k) = s
  /\ \A ks \in Keys : RUnique(ks) /\ (\A j \in 1..Len(ks) : ks[j] < Len(s)) =>
       /\ RGather(RScatter(s, ks, t), ks) = t
       /\ RScatter(s, ks, RGather(s, ks)) = s
  /\ \A k \in 0..Len(s) - 1 : RUpdate(s, k, 99) = RScatter(s, <<k>>, <<99>>)
  /\ RPrefix(s, s \o t) /\ RSuffix(t, s \o t)
=============================================================================
