------------------------------ MODULE OrdDefs ------------------------------
(* Outcomes: -1 less, 0 equal, 1 greater, 2 unordered. Categories: 0 strong, *)
(* 1 weak, 2 partial; 3..6 are the outcomes that have names.                 *)
EXTENDS Integers, Sequences
Weakness(t) == CASE t \in {0, 3, 4, 5} -> 0 [] t = 1 -> 1 [] t \in {2, 6} -> 2
RECURSIVE Common(_), FirstOdd(_, _)
Common(ts) == IF ts = <<>> THEN 0
              ELSE LET r == Common(Tail(ts)) h == Weakness(Head(ts)) IN IF h > r THEN h ELSE r
\* The place of the first outcome that is not equal, or of the last.
FirstOdd(o, p) == IF p = Len(o) \/ o[p] # 0 THEN p ELSE FirstOdd(o, p + 1)
Chain(o, ts) == LET p == FirstOdd(o, 1) IN <<Common(ts), o[p], p - 1>> \o [j \in 1..(p - 1) |-> j]
=============================================================================
