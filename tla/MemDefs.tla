------------------------------ MODULE MemDefs ------------------------------
(* Blocks of memory. The log is a flat sequence of                            *)
(* <<what, block, size, log2 align, allocator>>; a store maps the blocks that *)
(* are outstanding to <<size, align, allocator>>.                             *)
EXTENDS Integers, Sequences, TLC
MAlloc == 1 MFree == 2 MOld == 3 MNew == 4
Store0 == [ok |-> TRUE, at |-> 0, blk |-> <<>>, pend |-> -1]
MemStep(m, p, what, b, size, al, id) ==
  LET fail == [m EXCEPT !.ok = FALSE, !.at = p]
      add == (b :> <<size, al, id>>) @@ m.blk
      del == [x \in DOMAIN m.blk \ {b} |-> m.blk[x]]
      mine == b \in DOMAIN m.blk /\ m.blk[b] = <<size, al, id>>
  IN CASE what \in {MAlloc, MNew} /\ (b \in DOMAIN m.blk \/ b = 0 \/ size <= 0) -> fail
       [] what = MAlloc -> IF m.pend = -1 THEN [m EXCEPT !.blk = add] ELSE fail
       [] what = MNew -> IF m.pend = id THEN [m EXCEPT !.blk = add, !.pend = -1] ELSE fail
       [] what = MFree -> IF mine /\ m.pend = -1 THEN [m EXCEPT !.blk = del] ELSE fail
       [] what = MOld -> IF mine /\ m.pend = -1 THEN [m EXCEPT !.blk = del, !.pend = id] ELSE fail
       [] OTHER -> fail
RECURSIVE MemReplay(_, _, _)
MemReplay(m, log, p) ==
  IF p > Len(log) \/ ~m.ok THEN m
  ELSE MemReplay(MemStep(m, p, log[p], log[p + 1], log[p + 2], log[p + 3], log[p + 4]), log, p + 5)
=============================================================================
