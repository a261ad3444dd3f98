----------------------------- MODULE GuardTrace -----------------------------
(* Recorded calls of functions that return early.                             *)
EXTENDS FnTrace, GuardDefs
Steps(a, n) == [j \in 1..n |-> [how |-> a[3 * j + 1], r |-> a[3 * j + 2], x |-> a[3 * j + 3]]]
RECURSIVE Show(_, _, _, _)
Show(held, j, src, cell) == IF j > Len(held) THEN <<>> ELSE Shown(src, held[j], cell) \o Show(held, j + 1, src, cell)
Want(a) ==
  LET src == a[1] ret == a[2] n == a[3]
      h == a[3 * n + 4]
      held == [j \in 1..h |-> a[3 * n + 4 + j]]
      c == Run(Call(held), src, Steps(a, n))
  IN c.log \o <<0>> \o Returned(c, src, ret) \o Show(c.held, 1, src, CellAfter(c, src, ret)) \o <<c.copies>>
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ Match(Trace[i], Ok(Want(Trace[i].a)))
=============================================================================
