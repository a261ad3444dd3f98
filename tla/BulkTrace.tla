----------------------------- MODULE BulkTrace -----------------------------
(* Recorded bulk operations. An event holds the initial slots and the        *)
(* ranges; its result holds <<identity, value>> of every slot followed by    *)
(* the life log of the elements.                                             *)
EXTENDS FnTrace, BulkDefs, LifeDefs
Min2(x, y) == IF x < y THEN x ELSE y
Slots(ev) == SubSeq(ev.a, 2, 1 + ev.a[1])
Arg(ev, j) == ev.a[1 + ev.a[1] + j]
Expect(ev) ==
  LET s == Slots(ev) d == Arg(ev, 1) c == Arg(ev, 2) k == Arg(ev, 3) o == ev.op
  IN CASE o \in {"copy", "copy_assign", "copy_overlapping", "copy_assign_overlapping"} -> CopyOp(s, d, c, k)
       [] o \in {"copy_from", "emplace_from"} -> CopyOp(s, d, c, Min2(k, Arg(ev, 4)))
       [] o \in {"move", "move_assign", "move_overlapping", "move_assign_overlapping"} -> MoveOp(s, d, c, k)
       [] o \in {"relo", "relo_assign", "relo_overlapping", "shift"} -> RelocateOp(s, d, c, k)
       [] o = "destroy" -> DestroyOp(s, d, k)
       [] o = "swap" -> SwapOp(s, d, c)
       [] o = "reverse" -> ReverseOp(s, d, k)
\* Objects alive to begin with, numbered in slot order.
Rank(s, j) == Cardinality({m \in 1..j : s[m] # Raw})
Start(s) == LET L == {j \in 1..Len(s) : s[j] # Raw}
            IN [ok |-> TRUE, at |-> 0, last |-> Cardinality(L),
                obj |-> [id \in 1..Cardinality(L) |-> s[CHOOSE j \in L : Rank(s, j) = id]]]
\* Constructing over what is already there ends no life: only for those
\* operations may objects be left that no slot holds.
Leaks(ev) == ev.op \in {"copy_overlapping", "move_overlapping"}
Good(ev) ==
  LET s == Slots(ev) n == Len(s) e == Expect(ev) v == ev.v
      full == {j \in 1..n : e[j] # Raw}
      Id(j) == v[2 * j - 1]
      Value(j) == v[2 * j]
      tracked == \E j \in full : Id(j) # 0
      log == SubSeq(v, 2 * n + 1, Len(v))
      w == Replay(Start(s), log, 1)
  IN /\ ev.k = "ok"
     /\ \A j \in full : e[j] = Spent \/ Value(j) = e[j]
     /\ (tracked \/ log # <<>>) =>
          /\ w.ok
          /\ \A j \in full : Id(j) \in Alive(w) /\ (e[j] = Spent \/ w.obj[Id(j)] = e[j])
          /\ \A j, m \in full : j # m => Id(j) # Id(m)
          /\ Leaks(ev) \/ Alive(w) = {Id(j) : j \in full}
Next == i <= Len(Trace) /\ Judge(Good(Trace[i]), Expect(Trace[i])) /\ i' = i + 1
=============================================================================
