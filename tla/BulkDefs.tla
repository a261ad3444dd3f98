------------------------------ MODULE BulkDefs ------------------------------
(* Bulk operations on the slots of a buffer. A slot is Raw, holds an object  *)
(* of some value, or holds a moved-from object (Spent value). What each        *)
(* operation must leave is defined through a temporary copy of the source,   *)
(* whatever the overlap.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
Raw == -1
Spent == -2
Rng(a, k) == (a + 1)..(a + k)
\* Values of the source range, as they were.
Put(s, dst, src, k) == [j \in 1..Len(s) |-> IF j \in Rng(dst, k) THEN s[j - dst + src] ELSE s[j]]
Mark(s, e, dst, src, k, m) == [j \in 1..Len(s) |-> IF j \in Rng(src, k) \ Rng(dst, k) THEN m ELSE e[j]]
CopyOp(s, dst, src, k) == Put(s, dst, src, k)
MoveOp(s, dst, src, k) == Mark(s, Put(s, dst, src, k), dst, src, k, Spent)
RelocateOp(s, dst, src, k) == Mark(s, Put(s, dst, src, k), dst, src, k, Raw)
DestroyOp(s, dst, k) == [j \in 1..Len(s) |-> IF j \in Rng(dst, k) THEN Raw ELSE s[j]]
SwapOp(s, a, b) == [s EXCEPT ![a + 1] = s[b + 1], ![b + 1] = s[a + 1]]
ReverseOp(s, a, k) == [j \in 1..Len(s) |-> IF j \in Rng(a, k) THEN s[2 * a + k + 1 - j] ELSE s[j]]
=============================================================================
