---------------------------- MODULE BoxMemTrace ----------------------------
(* The same histories against the memory they ask for: every owner has one   *)
(* block, of the layout of what it owns, unless that takes no memory at all. *)
EXTENDS StateTrace, MemDefs
Size == atoi(IOEnv.ESIZE)
Align == atoi(IOEnv.EALIGN)
Start == [m |-> Store0, al |-> <<-1, -1, -1>>]
\* The allocators a register may have afterwards.
Als(al, ev) ==
  LET r == ev.a[1] + 1
      q == ev.a[2] + 1
  IN CASE ev.op \in {"new", "wrap"} -> [j \in 1..3 |-> IF j = r THEN {ev.a[2]} ELSE {al[j]}]
       [] ev.op \in {"moven", "movea", "raw", "copyn", "try"} /\ ev.k = "ok" ->
            [j \in 1..3 |-> IF j = r THEN {al[q]} ELSE {al[j]}]
       [] ev.op = "swap" -> [j \in 1..3 |-> IF j = r THEN {al[q]} ELSE IF j = q THEN {al[r]} ELSE {al[j]}]
       \* Either assigns in place, or becomes a copy.
       [] ev.op = "copya" -> [j \in 1..3 |-> IF j = r THEN {al[r], al[q]} ELSE {al[j]}]
       [] OTHER -> [j \in 1..3 |-> {al[j]}]
Judge(w, ev) ==
  LET u == MemReplay(w.m, ev.s.mem, 1)
      al == Als(w.al, ev)
      R == ev.s.r
      owners == {j \in 1..3 : R[j].on = 1 /\ R[j].size > 0}
      ok == /\ ev.k \in {"ok", "none"}
            /\ u.ok /\ u.pend = -1
            /\ DOMAIN u.blk = {R[j].blk : j \in owners}
            /\ Cardinality(owners) = Cardinality(DOMAIN u.blk)
            /\ \A j \in (1..3) \ owners : R[j].blk = 0
            /\ \A j \in 1..3 : R[j].on = 1 => R[j].inst \in al[j]
            /\ \A j \in owners : /\ u.blk[R[j].blk] = <<R[j].size, R[j].al, R[j].inst>>
                                 /\ (Size > 0 => R[j].size = Size * R[j].n /\ R[j].al = Align)
  IN [ok |-> ok, want |-> <<u.ok, u.at, u.blk, al>>,
      st |-> [m |-> u, al |-> [j \in 1..3 |-> IF R[j].on = 1 THEN R[j].inst ELSE IF Cardinality(al[j]) = 1 THEN CHOOSE x \in al[j] : TRUE ELSE -1]]]
Init == Begin(Start)
Next == Walk(Start, Judge)
=============================================================================
