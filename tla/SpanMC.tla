------------------------------- MODULE SpanMC -------------------------------
(* Laws of the sequence operations over every pair of short sequences:       *)
(* splitting loses nothing, ordering is a total order that agrees with       *)
(* equality, stable sorting is an ordered permutation that keeps the order   *)
(* of equals, and bisecting the result finds exactly what is there.          *)
EXTENDS SpanDefs, TLC
CONSTANTS MaxX, MaxY
VARIABLES x, y
Vals == 0..2
Init == x = <<>> /\ y = <<>>
Next == \/ y = <<>> /\ Len(x) < MaxX /\ \E v \in Vals : x' = Append(x, v) /\ UNCHANGED y
        \/ Len(y) < MaxY /\ \E v \in Vals : y' = Append(y, v) /\ UNCHANGED x
RECURSIVE Rejoin(_, _)
Rejoin(ps, sep) == IF Len(ps) = 1 THEN SubSeq(x, ps[1][1] + 1, ps[1][2])
                   ELSE SubSeq(x, ps[1][1] + 1, ps[1][2]) \o sep \o Rejoin(Tail(ps), sep)
Lossless == y # <<>> =>
  /\ Rejoin(Split(x, SeqPat(y), 0, Len(x)), y) = x
  /\ Rejoin(Reversed(RSplit(x, SeqPat(y), 0, Len(x))), y) = x
\* Single separators give the same pieces from either end.
SameEnds == Len(y) = 1 => Split(x, SeqPat(y), 0, Len(x)) = Reversed(RSplit(x, SeqPat(y), 0, Len(x)))
AnyLength == y # <<>> => Split(x, SeqPat(y), 0, Len(x)) = Reversed(RSplit(x, SeqPat(y), 0, Len(x)))
Total == /\ Cmp(x, y, 1) = 0 - Cmp(y, x, 1)
         /\ (Cmp(x, y, 1) = 0) <=> (x = y)
         /\ Cmp(SubSeq(x, 1, Len(x) - 1), x, 1) = (IF x = <<>> THEN 0 ELSE -1)
rk == [v \in Vals |-> (v + 1) % 3]
Tagged == [j \in 1..Len(x) |-> x[j] * 16 + j]
trk == [e \in 0..63 |-> ((e \div 16) + 1) % 3]
Sorting == LET s == StableSort(Tagged, trk)
           IN /\ IsPermutation(s, Tagged) /\ Ordered(s, trk)
              /\ \A j, k \in 1..Len(s) : (j < k /\ trk[s[j]] = trk[s[k]]) => s[j] % 16 < s[k] % 16
Bisecting == LET s == StableSort(x, rk)
             IN \A q \in 0..2 : LET w == BisectInsert(s, rk, q)
                                IN /\ \A j \in 1..w : rk[s[j]] < q
                                   /\ \A j \in (w + 1)..Len(s) : rk[s[j]] >= q
                                   /\ (BisectFound(s, rk, q) = {}) <=> (\A j \in 1..Len(s) : rk[s[j]] # q)
=============================================================================
