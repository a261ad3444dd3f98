------------------------------ MODULE TextDefs ------------------------------
(* Views of text: construction, iteration, search, splitting, slicing and    *)
(* comparison. Everything is defined on the sequence of code points and then *)
(* mapped to unit offsets.                                                   *)
EXTENDS Utf

B(x) == IF x THEN 1 ELSE 0
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Replacement == 65533

(***************************************************************************)
(* Construction                                                            *)
(***************************************************************************)
RECURSIVE GoodFrom(_, _, _)
GoodFrom(e, u, p) ==
  IF p > Len(u) THEN p
  ELSE LET hi == IF Len(u) < p + 3 THEN Len(u) ELSE p + 3
           f == Front(e, SubSeq(u, p, hi))
       IN IF f[2] = 0 THEN p ELSE GoodFrom(e, u, p + f[2])
\* The number of units in the longest validly encoded prefix.
GoodPrefix(e, u) == GoodFrom(e, u, 1) - 1
Piece(from, len) == IF len = 0 THEN <<0, 0>> ELSE <<from, len>>

(***************************************************************************)
(* Iteration. State: the units not yet yielded, u[lo+1..hi].               *)
(* An ill-formed unit stands for one replacement character (an error for   *)
(* the fallible iterator), one unit at a time.                             *)
(***************************************************************************)
FrontOf(e, u, lo, hi) == Front(e, SubSeq(u, lo + 1, IF hi < lo + 4 THEN hi ELSE lo + 4))
BackOf(e, u, lo, hi) == Back(e, SubSeq(u, IF lo > hi - 4 THEN lo + 1 ELSE hi - 3, hi))
RECURSIVE CountFrom(_, _, _, _)
CountFrom(e, u, lo, hi) ==
  IF lo >= hi THEN 0
  ELSE LET f == FrontOf(e, u, lo, hi) IN 1 + CountFrom(e, u, lo + (IF f[2] = 0 THEN 1 ELSE f[2]), hi)
Step(e, u, lo, hi, back) ==
  LET f == IF back THEN BackOf(e, u, lo, hi) ELSE FrontOf(e, u, lo, hi)
      n == IF f[2] = 0 THEN 1 ELSE f[2]
  IN IF lo >= hi THEN [lo |-> lo, hi |-> hi, cp |-> -2, at |-> -2]
     ELSE IF back THEN [lo |-> lo, hi |-> hi - n, cp |-> f[1], at |-> hi - n]
     ELSE [lo |-> lo + n, hi |-> hi, cp |-> f[1], at |-> lo]

(***************************************************************************)
(* Search. A pattern is a non-empty sequence of code points, the empty     *)
(* sequence, or a predicate on one code point.                             *)
(***************************************************************************)
Pred(id, c) == CASE id = 0 -> c < 128
                 [] id = 1 -> c \in {65, 233}
                 [] id = 2 -> c >= 65536
                 [] id = 3 -> c % 2 = 0
                 [] id = 4 -> FALSE
                 [] OTHER -> TRUE
StringPat(p) == [n |-> Len(p), p |-> p, id |-> -1]
PredPat(id) == [n |-> 1, p |-> <<>>, id |-> id]
MatchAt(r, pat, j) == IF pat.id >= 0 THEN Pred(pat.id, r[j])
                      ELSE SubSeq(r, j, j + pat.n - 1) = pat.p
\* Numbers of code points before each occurrence, within r[lo+1..hi].
Hits(r, pat, lo, hi) == {k \in lo..(hi - pat.n) : MatchAt(r, pat, k + 1)}

\* Pieces <<lo, hi>> of r[lo+1..hi] when splitting from the front (back).
RECURSIVE Split(_, _, _, _), RSplit(_, _, _, _)
Split(r, pat, lo, hi) ==
  LET H == Hits(r, pat, lo, hi)
  IN IF H = {} THEN <<<<lo, hi>>>>
     ELSE <<<<lo, Least(H)>>>> \o Split(r, pat, Least(H) + pat.n, hi)
RSplit(r, pat, lo, hi) ==
  LET H == Hits(r, pat, lo, hi)
  IN IF H = {} THEN <<<<lo, hi>>>>
     ELSE <<<<Most(H) + pat.n, hi>>>> \o RSplit(r, pat, lo, Most(H))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

Search(e, u, pat, dirs) ==
  LET r == Runes(e, u)
      os == Offsets(e, r)
      n == Len(r)
      At(k) == os[k + 1]
      P(lo, hi) == Piece(At(lo), At(hi) - At(lo))
      H == Hits(r, pat, 0, n)
      starts == 0 \in H
      ends == (n - pat.n) \in H
      pieces == Split(r, pat, 0, n)
      rpieces == RSplit(r, pat, 0, n)
      Show(ps) == <<Len(ps)>> \o Flat([j \in 1..Len(ps) |-> P(ps[j][1], ps[j][2])])
      \* Taking pieces from either end (single code point separators).
      Mixed[j \in 0..Len(dirs)] ==
        IF j = 0 THEN [lo |-> 1, hi |-> Len(pieces), out |-> <<>>]
        ELSE LET m == Mixed[j - 1]
             IN IF m.lo > m.hi THEN [m EXCEPT !.out = @ \o <<-1, -1>>]
                ELSE IF dirs[j] = 1
                THEN [m EXCEPT !.hi = @ - 1, !.out = @ \o P(pieces[m.hi][1], pieces[m.hi][2])]
                ELSE [m EXCEPT !.lo = @ + 1, !.out = @ \o P(pieces[m.lo][1], pieces[m.lo][2])]
  IN <<IF H = {} THEN -1 ELSE At(Least(H)), IF H = {} THEN -1 ELSE At(Most(H)),
       B(H # {}), B(starts), B(ends)>>
     \o (IF starts THEN P(pat.n, n) ELSE <<-1, -1>>)
     \o (IF ends THEN P(0, n - pat.n) ELSE <<-1, -1>>)
     \o <<B(starts)>> \o (IF starts THEN P(pat.n, n) ELSE P(0, n))
     \o <<B(ends)>> \o (IF ends THEN P(0, n - pat.n) ELSE P(0, n))
     \o (IF H = {} THEN <<-1, -1, -1, -1>> ELSE P(0, Least(H)) \o P(Least(H) + pat.n, n))
     \o (IF H = {} THEN <<-1, -1, -1, -1>> ELSE P(0, Most(H)) \o P(Most(H) + pat.n, n))
     \o (IF pat.n = 0 THEN <<>>
         ELSE Show(pieces) \o Show(rpieces) \o Mixed[Len(dirs)].out)

(***************************************************************************)
(* Slicing of valid text: only at boundaries.                              *)
(***************************************************************************)
OffsetSet(e, u) == LET os == Offsets(e, Runes(e, u)) IN {os[j] : j \in 1..Len(os)}

(***************************************************************************)
(* Comparison: lexicographic by code point.                                *)
(***************************************************************************)
RECURSIVE Cmp(_, _, _)
Cmp(x, y, p) ==
  IF p > Len(x) THEN (IF p > Len(y) THEN 0 ELSE -1)
  ELSE IF p > Len(y) THEN 1
  ELSE IF x[p] # y[p] THEN (IF x[p] < y[p] THEN -1 ELSE 1)
  ELSE Cmp(x, y, p + 1)
=============================================================================
