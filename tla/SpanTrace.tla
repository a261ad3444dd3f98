----------------------------- MODULE SpanTrace -----------------------------
(* Recorded searches, splits, comparisons, sorts and bisections of spans.    *)
(* Elements are integers; the driver embeds them in each element type so     *)
(* that equality and order are preserved.                                    *)
EXTENDS FnTrace, SpanDefs
\* The list that starts with its length at p, and what follows it.
L(a, p) == SubSeq(a, p + 1, p + a[p])
After(a, p) == p + 1 + a[p]

Val(a) == LET h == L(a, 1) p == After(a, 1) dirs == L(a, p + 1) pat == SeqPat(<<a[p]>>)
          IN Ok(Finding(h, pat) \o Splitting(h, pat, dirs))
Pred(a) == LET h == L(a, 1) p == After(a, 1) t == L(a, p) dirs == L(a, After(a, p))
               pat == SetPat({t[j] : j \in 1..Len(t)})
           IN Ok(Finding(h, pat) \o Splitting(h, pat, dirs))
SeqOp(a, from, fix) ==
  LET h == L(a, from) p == After(a, from) w == L(a, p) pat == SeqPat(w)
  IN Ok(Finding(h, pat)
        \o (IF fix THEN <<>> ELSE Affixes(h, w))
        \o (IF w = <<>> THEN <<>> ELSE Splitting(h, pat, L(a, After(a, p)))))
Compare(a, from) == Ok(Comparison(L(a, from), L(a, After(a, from))))

\* Sorting: <<how, ranks, elements>>; an element is its rank index and a tag.
RankOf(t) == [e \in 0..(16 * Len(t) - 1) |-> t[e \div 16 + 1]]
Sort(ev) == LET a == ev.a t == L(a, 1) x == L(a, After(a, 1)) rk == RankOf(t)
            IN Judge(ev.k = "ok" /\ IsPermutation(ev.v, x) /\ Ordered(ev.v, rk), "an ordered permutation")
Stable(ev) == LET a == ev.a t == L(a, 1) x == L(a, After(a, 1))
              IN Match(ev, Ok(StableSort(x, RankOf(t))))
\* Bisection: ranks, sorted elements, rank sought; <<1, index>> or <<0, where>>.
Bisect(ev) ==
  LET a == ev.a t == L(a, 1) p == After(a, 1) x == L(a, p) q == a[After(a, p)] rk == RankOf(t)
      F == BisectFound(x, rk, q)
      Fine(f, k) == IF F = {} THEN f = 0 /\ k = BisectInsert(x, rk, q) ELSE f = 1 /\ k \in F
  IN Judge(ev.k = "ok" /\ Len(ev.v) % 2 = 0 /\ \A j \in 1..(Len(ev.v) \div 2) : Fine(ev.v[2 * j - 1], ev.v[2 * j]),
           <<F, BisectInsert(x, rk, q)>>)

Judged(ev) ==
  LET a == ev.a
  IN CASE ev.op = "val" -> Match(ev, Val(a))
       [] ev.op = "pred" -> Match(ev, Pred(a))
       [] ev.op = "seq" -> Match(ev, SeqOp(a, 2, FALSE))
       [] ev.op = "sseq" -> Match(ev, SeqOp(a, 1, TRUE))
       [] ev.op = "cmp" -> Match(ev, Compare(a, 2))
       [] ev.op = "scmp" -> Match(ev, Compare(a, 1))
       [] ev.op = "sort" -> Sort(ev)
       [] ev.op = "stable" -> Stable(ev)
       [] ev.op = "bisect" -> Bisect(ev)
Next == i <= Len(Trace) /\ Judged(Trace[i]) /\ i' = i + 1
=============================================================================
