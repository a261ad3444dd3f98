------------------------------ MODULE MallocMC ------------------------------
(* An allocator that keeps a cookie before each block, in a small memory,    *)
(* against what a user of blocks relies on: live blocks are apart, aligned,  *)
(* and hold what was written to them.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cells, Cookie, Broken
VARIABLES mem, live
\* live: handle -> [at, size, align, data], at being where the user's bytes are.
Hs == 1..2
Gap(align) == IF Cookie = 0 THEN 0 ELSE IF align > Cookie THEN align ELSE Cookie
Raw(b) == (b.at - Gap(b.align))..(b.at + b.size - 1)
Used(h) == UNION {Raw(live[g]) : g \in {g \in Hs : g # h /\ live[g].size > 0}}
None == [at |-> 0, size |-> 0, align |-> 1, data |-> <<>>]
Sizes == 1..3
Aligns == {1, 2, 4}
Fits(at, n, align, taken) ==
  /\ at % align = 0
  /\ at - Gap(align) >= 0
  /\ at + n <= Cells
  /\ ((at - Gap(align))..(at + n - 1)) \cap taken = {}
\* Every place a block may be put.
Places(n, align, taken) == {at \in 0..Cells - 1 : Fits(at, n, align, taken)}
Write(m, at, d) == [c \in 0..Cells - 1 |-> IF c >= at /\ c < at + Len(d) THEN d[c - at + 1] ELSE m[c]]
Stamp(m, at, align) == [c \in 0..Cells - 1 |-> IF c >= at - Gap(align) /\ c < at - Gap(align) + Cookie THEN 9 ELSE m[c]]
Min(x, y) == IF x < y THEN x ELSE y
Init == mem = [c \in 0..Cells - 1 |-> 0] /\ live = [h \in Hs |-> None]
Fill(n, h) == [j \in 1..n |-> 10 * h + j]
Alloc(h) == /\ live[h].size = 0
            /\ \E n \in Sizes, a \in Aligns : \E at \in Places(n, a, Used(h)) :
                 /\ live' = [live EXCEPT ![h] = [at |-> at, size |-> n, align |-> a, data |-> Fill(n, h)]]
                 /\ mem' = Write(Stamp(mem, at, a), at, Fill(n, h))
\* Resizing in place moves the bytes from the raw start, cookie and all; it is
\* right only if the gap stays what it was and the alignment is default.
Realloc(h) ==
  /\ live[h].size > 0
  /\ LET b == live[h] IN
     \E n \in Sizes, a \in Aligns :
       LET keep == Min(n, b.size)
           inplace == (a <= 2 /\ b.align <= 2) \/ Broken = 1
           taken == Used(h) \cup (IF inplace THEN {} ELSE Raw(b))
       IN \E at \in Places(n, a, taken) :
            LET from == IF inplace THEN b.at - Gap(b.align) + Gap(a) ELSE b.at
                got == [j \in 1..keep |-> IF from + j - 1 \in 0..Cells - 1 THEN mem[from + j - 1] ELSE 0]
                all == got \o [j \in 1..(n - keep) |-> 7]
            IN /\ live' = [live EXCEPT ![h] = [at |-> at, size |-> n, align |-> a,
                                               data |-> SubSeq(b.data, 1, keep) \o [j \in 1..(n - keep) |-> 7]]]
               /\ mem' = Write(Stamp(mem, at, a), at, all)
Dealloc(h) == live[h].size > 0 /\ live' = [live EXCEPT ![h] = None] /\ UNCHANGED mem
Next == \E h \in Hs : Alloc(h) \/ Realloc(h) \/ Dealloc(h)
Kept == \A h \in Hs : live[h].size > 0 => \A j \in 1..live[h].size : mem[live[h].at + j - 1] = live[h].data[j]
Laid == \A h \in Hs : live[h].size > 0 => live[h].at % live[h].align = 0 /\ Raw(live[h]) \cap Used(h) = {}
Laws == Kept /\ Laid
=============================================================================
