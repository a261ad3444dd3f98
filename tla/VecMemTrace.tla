----------------------------- MODULE VecMemTrace -----------------------------
(* The same histories against the memory they ask for: every block goes back *)
(* once, as it came, to an allocator equal to the one it came from; and the   *)
(* blocks outstanding between two operations are those of the vectors that    *)
(* are on the heap, each large enough for what it must be able to hold.       *)
EXTENDS StateTrace, MemDefs
Size == atoi(IOEnv.ESIZE)
Align == atoi(IOEnv.EALIGN)
\* Allocators: each register's, as the history determines it.
Start == [m |-> Store0, al |-> <<-1, -1, -1>>]
NextAl(al, ev) ==
  LET r == ev.a[1] + 1
      q == ev.a[2] + 1
  IN CASE ev.op \in {"new", "from", "iter", "il", "frombuf", "fromtext", "fromnul", "wrap", "wrappre", "lit", "trans", "fromw"}
            /\ ev.k = "ok" -> [al EXCEPT ![r] = ev.a[2]]
       [] ev.op \in {"copyn", "moven", "movea"} -> [al EXCEPT ![r] = al[q]]
       [] ev.op = "drop" -> [al EXCEPT ![r] = -1]
       [] OTHER -> al
Judge(w, ev) ==
  IF ev.k = "crash" THEN [ok |-> TRUE, want |-> "any", st |-> w]
  ELSE LET u == MemReplay(w.m, ev.s.mem, 1)
           al == NextAl(w.al, ev)
           R == ev.s.r
           heap == {j \in 1..Len(R) : R[j].on = 1 /\ R[j].inl = 0}
           ok == /\ ev.k \in {"ok", "none"}
                 /\ u.ok /\ u.pend = -1
                 /\ DOMAIN u.blk = {R[j].blk : j \in heap}
                 /\ Cardinality(heap) = Cardinality(DOMAIN u.blk)
                 /\ \A j \in (1..Len(R)) \ heap : R[j].blk = 0
                 /\ \A j \in 1..Len(R) : R[j].on = 1 => R[j].inst = al[j]
                 /\ \A j \in heap : LET b == u.blk[R[j].blk]
                                    IN b[1] >= R[j].cap * Size /\ b[2] >= Align /\ b[3] = R[j].inst
       IN [ok |-> ok, want |-> <<u.ok, u.at, u.blk, al>>, st |-> [m |-> u, al |-> al]]
Init == Begin(Start)
Next == Walk(Start, Judge)
=============================================================================
