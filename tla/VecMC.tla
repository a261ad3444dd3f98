-------------------------------- MODULE VecMC --------------------------------
(* Histories of vectors, exhaustively within bounds. `heap` abstracts how a   *)
(* vector is stored, so that every operation is taken in both forms; it has   *)
(* no part in what the operations mean. Every transition is printed, and the  *)
(* histories that cover them are replayed into the code.                      *)
EXTENDS VecDefs, TLC, Json
CONSTANTS Regs, Vals, MaxLen, Inl, Als, Shape, Emit, Mutant
VARIABLES w, heap
vars == <<w, heap>>
R == 1..Regs
Init == w = [r \in R |-> Off] /\ heap = [r \in R |-> 0]
Lists == {<<>>} \cup {<<x>> : x \in Vals} \cup {<<x, y>> : x, y \in Vals}
Arg(t) == <<Len(t)>> \o t
\* The operations on register r (from 1) with their arguments.
Ops(r) ==
  LET z == r - 1 n == Len(w[r].s)
      on == w[r].on = 1
      others == {q \in R : w[q].on = 1 /\ q # r}
  IN {<<"new", <<z, al>>>> : al \in Als}
     \cup (IF Shape = 1 THEN {<<"from", <<z, al>> \o Arg(t)>> : al \in Als, t \in Lists}
                             \cup {<<"iter", <<z, al>> \o Arg(t)>> : al \in Als, t \in Lists} ELSE {})
     \cup {<<o, <<z, q - 1>>>> : q \in others, o \in {"copyn", "moven"}}
     \cup (IF ~on THEN {} ELSE
       {<<"drop", <<z>>>>, <<"clear", <<z>>>>, <<"shrink", <<z>>>>, <<"spill", <<z, -1, 0>>>>,
        <<"spill", <<z, n + 2, 1>>>>, <<"reserve", <<z, 2>>>>, <<"box", <<z>>>>, <<"pop", <<z>>>>}
       \cup {<<"push", <<z, x>>>> : x \in Vals}
       \cup {<<o, <<z, q - 1>>>> : q \in others \cup {r}, o \in {"copya", "movea", "assignv", "appendv", "cmp"}}
       \cup (IF Shape # 1 THEN {} ELSE
          {<<"insert", <<z, k, x>>>> : k \in 0..n, x \in Vals}
          \cup {<<"splice", <<z, k>> \o Arg(t)>> : k \in 0..n, t \in Lists}
          \cup {<<"gap", <<z, k>> \o Arg(t)>> : k \in 0..n, t \in Lists}
          \cup {<<"splicein", <<z, k, f, c>>>> : k \in 0..n, f \in 0..n, c \in 0..n}
          \cup {<<"append", <<z>> \o Arg(t)>> : t \in Lists}
          \cup {<<"assign", <<z>> \o Arg(t)>> : t \in Lists}
          \cup {<<"remove", <<z, k>>>> : k \in 0..(n - 1)}
          \cup {<<"erase", <<z, k, c, f>>>> : k \in 0..n, c \in 0..n, f \in {0, 1}}
          \cup {<<"erase", <<z, k, 0, 3>>>> : k \in 0..n}
          \cup {<<o, <<z, k>>>> : k \in 0..(n + 1), o \in {"trunc", "resize", "at"}}
          \cup {<<"first", <<z>>>>, <<"last", <<z>>>>}))
Heap(r, op, a, u) ==
  LET q == a[2] + 1
  IN [j \in R |-> IF u[j].on = 0 THEN 0
                  ELSE IF Len(u[j].s) > Inl THEN 1
                  ELSE IF op \in {"moven", "movea"} /\ r # q THEN (IF j = r THEN heap[q] ELSE IF j = q THEN 0 ELSE heap[j])
                  ELSE IF j # r THEN heap[j]
                  ELSE IF op \in {"new", "from", "iter", "copyn"} THEN 0
                  ELSE IF op \in {"spill", "reserve"} THEN 1 ELSE heap[j]]
Do(r) == \E o \in Ops(r) :
  LET e == Apply(w, o[1], o[2])
  IN /\ e.k # "crash"
     /\ \A j \in R : Len(e.w[j].s) <= MaxLen
     /\ w' = e.w
     /\ heap' = Heap(r, o[1], IF Len(o[2]) > 1 THEN o[2] ELSE o[2] \o <<0>>, e.w)
     /\ IF Emit THEN PrintT(<<"EDGE", ToJson(<<<<w, heap>>, o[1], o[2], <<w', heap'>>>>)>>) ELSE TRUE
Next == \E r \in R : Do(r)

\* Laws of the operations, at every reachable state.
S == {w[r].s : r \in R}
Outcome(s, op, a) == Apply(<<On(s, 0)>>, op, <<0>> \o a)
Laws == \A s \in S : LET n == Len(s) IN
  /\ \A k \in 0..n, x \in Vals :
       LET e == Outcome(s, "insert", <<k, x>>) f == Outcome(e.w[1].s, "remove", <<k>>)
       IN e.k = "ok" /\ f.v = <<x>> /\ f.w[1].s = s
  /\ \A x \in Vals : Outcome(s, "push", <<x>>).w[1].s = Outcome(s, "insert", <<n, x>>).w[1].s
  /\ \A k \in 0..n, c \in 0..n : k + c <= n =>
       /\ Len(Outcome(s, "erase", <<k, c, 0>>).w[1].s) = n - c
       /\ SpliceAt(EraseAt(s, k, c), k, SubSeq(s, k + 1, k + c)) = s
       /\ EraseAt(SpliceAt(s, k, s), k, n) = s
  /\ \A k \in 0..(n + 1) : Outcome(s, "trunc", <<k>>).w[1].s = Take(s, MinN(k, n))
Compare == \A s, t \in S : LexCmp(s, t) = -LexCmp(t, s) /\ (LexCmp(s, t) = 0) = (s = t)
\* How splicing a vector into itself is done: a gap is opened, which may cut
\* the spliced range in two; the pieces are copied from where they are now.
Raw == -1
Gap(s, k, c) == Take(s, k) \o [j \in 1..c |-> Raw] \o Drop(s, k)
Copy(s, to, from, c) == [j \in 1..Len(s) |-> IF to < j /\ j <= to + c THEN s[j - to + from] ELSE s[j]]
SpliceWithin(s, k, f, c) ==
  LET g == Gap(s, k, c)
      before == k - f
  IN IF f + c <= k THEN Copy(g, k, f, c)
     ELSE IF (IF Mutant THEN k <= f + 1 ELSE k < f) THEN Copy(g, k, f + c, c)
     ELSE Copy(Copy(g, k, f, before), k + before, k + c, c - before)
Refines == \A s \in S : \A k \in 0..Len(s), f \in 0..Len(s), c \in 0..Len(s) :
  f + c <= Len(s) => SpliceWithin(s, k, f, c) = SpliceAt(s, k, SubSeq(s, f + 1, f + c))
=============================================================================
