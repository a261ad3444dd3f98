------------------------------ MODULE RowDefs ------------------------------
(* Rearrangements of sequences: rows of values and lists of types alike.     *)
EXTENDS Integers, Sequences
\* A range is <<start, kind, value>>: no end, an end, a count, a last index.
RStop(b, n) == CASE b[2] = 0 -> n
                 [] b[2] = 1 -> b[3]
                 [] b[2] = 2 -> b[1] + b[3]
                 [] b[2] = 3 -> b[3] + 1
RIn(b, n) == b[1] <= RStop(b, n) /\ RStop(b, n) <= n
RCut(s, b) == SubSeq(s, b[1] + 1, RStop(b, Len(s)))
RSplice(s, b, t) == SubSeq(s, 1, b[1]) \o t \o SubSeq(s, RStop(b, Len(s)) + 1, Len(s))
RErase(s, b) == RSplice(s, b, <<>>)
RInsert(s, k, x) == RSplice(s, <<k, 2, 0>>, <<x>>)
RUpdate(s, k, x) == RSplice(s, <<k, 2, 1>>, <<x>>)
RRemove(s, k) == RSplice(s, <<k, 2, 1>>, <<>>)
RGather(s, ks) == [j \in 1..Len(ks) |-> s[ks[j] + 1]]
\* Every place takes the last thing sent to it; what is sent outside is lost.
RScatter(s, ks, t) ==
  [j \in 1..Len(s) |->
     LET at == {p \in 1..Len(ks) : ks[p] = j - 1}
     IN IF at = {} THEN s[j] ELSE t[CHOOSE p \in at : \A o \in at : o <= p]]
RECURSIVE RSelect(_, _, _)
\* The indices, in order, whose mark in m is set.
RSelect(m, want, p) == IF p > Len(m) THEN <<>>
                       ELSE (IF m[p] = want THEN <<p - 1>> ELSE <<>>) \o RSelect(m, want, p + 1)
RPrefix(t, s) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
RSuffix(t, s) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
RUnique(s) == \A p, o \in 1..Len(s) : s[p] = s[o] => p = o
=============================================================================
