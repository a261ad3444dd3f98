------------------------------ MODULE OrdTrace ------------------------------
(* Recorded chains of comparisons, common categories, generic comparisons.   *)
EXTENDS FnTrace, OrdDefs
B01(x) == IF x THEN 1 ELSE 0
Words == <<<<76, 101, 115, 115>>, <<69, 113, 117, 97, 108>>, <<71, 114, 101, 97, 116, 101, 114>>,
           <<85, 110, 111, 114, 100, 101, 114, 101, 100>>>>
Sign(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
\* Kinds of values: 0..2 integers, 3 floating, 4 has == and <, 5 only ==,
\* 6 neither, 7..10 pointers, 11 an optional integer (9 is none, the least).
Odd(k, n) == k \in {3, 4} /\ n = 9
Nums == {0, 1, 2, 3}
Ptrs == {7, 8, 9, 10}
Pair(a) ==
  LET k == a[2] l == a[3] x == a[4] y == a[5]
      none == Odd(k, x) \/ Odd(l, y)
      partial == 3 \in {k, l}
  IN CASE k \in Nums /\ l \in Nums ->
            <<B01(x = y /\ ~none), IF partial THEN 2 ELSE 0, IF none THEN 2 ELSE Sign(x, y)>>
       [] k = 4 /\ l = 4 -> <<B01(x = y /\ ~none), 2, IF none THEN 2 ELSE Sign(x, y)>>
       [] k = 5 /\ l = 5 -> <<B01(x = y), 2, 2>>
       [] k \in Ptrs /\ l \in Ptrs -> <<B01(x = y), 0, Sign(x, y)>>
       [] k = 11 /\ l = 11 -> <<B01(x = y), 0, IF x = 9 \/ y = 9 THEN Sign(B01(x # 9), B01(y # 9)) ELSE Sign(x, y)>>
       [] OTHER -> <<0, 2, 2>>
Judged(e) ==
  LET a == e.a
  IN CASE e.op = "chain" -> LET n == a[2] IN Match(e, Ok(Chain(SubSeq(a, 3, 2 + n), SubSeq(a, 3 + n, 2 + 2 * n))))
       [] e.op = "common" -> Match(e, Ok(<<Common(Tail(a))>>))
       [] e.op = "named" -> Match(e, Ok(<<a[2] - 4, IF a[2] = 6 THEN 9 ELSE a[2] - 4>>))
       [] e.op = "shown" -> Match(e, Ok(<<Len(Words[a[2] + 2])>> \o Words[a[2] + 2]))
       [] e.op = "pair" -> Match(e, Ok(Pair(a)))
Next == i <= Len(Trace) /\ Judged(Trace[i]) /\ i' = i + 1
=============================================================================
