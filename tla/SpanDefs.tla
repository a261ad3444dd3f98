------------------------------ MODULE SpanDefs ------------------------------
(* Contiguous sequences of values and views into them. A view is a pair of   *)
(* offset and length into the underlying sequence; the offset of an empty    *)
(* view is not observed.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
B01(b) == IF b THEN 1 ELSE 0
Piece(lo, n) == IF n = 0 THEN <<0, 0>> ELSE <<lo, n>>
NoPiece == <<-1, -1>>
Least(S) == CHOOSE m \in S : \A k \in S : m <= k
Most(S) == CHOOSE m \in S : \A k \in S : m >= k
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

(***************************************************************************)
(* Searching and splitting. A pattern has a length and a test for a match   *)
(* at a position.                                                          *)
(***************************************************************************)
SeqPat(w) == [n |-> Len(w), w |-> w, S |-> {}]
SetPat(S) == [n |-> 1, w |-> <<>>, S |-> S]
MatchAt(r, p, k) == IF p.w = <<>> /\ p.n = 1 THEN r[k + 1] \in p.S
                    ELSE SubSeq(r, k + 1, k + p.n) = p.w
Hits(r, p, lo, hi) == {k \in lo..(hi - p.n) : MatchAt(r, p, k)}
RECURSIVE Split(_, _, _, _), RSplit(_, _, _, _)
Split(r, p, lo, hi) ==
  LET H == Hits(r, p, lo, hi)
  IN IF H = {} THEN <<<<lo, hi>>>>
     ELSE <<<<lo, Least(H)>>>> \o Split(r, p, Least(H) + p.n, hi)
RSplit(r, p, lo, hi) ==
  LET H == Hits(r, p, lo, hi)
  IN IF H = {} THEN <<<<lo, hi>>>>
     ELSE <<<<Most(H) + p.n, hi>>>> \o RSplit(r, p, lo, Most(H))
\* Taking pieces alternately from either end searches what is left.
RECURSIVE Mixed(_, _, _, _, _)
Mixed(r, p, lo, hi, dirs) ==
  IF dirs = <<>> THEN <<>>
  ELSE IF lo < 0 THEN NoPiece \o Mixed(r, p, -1, -1, Tail(dirs))
  ELSE LET H == Hits(r, p, lo, hi)
       IN IF H = {} THEN Piece(lo, hi - lo) \o Mixed(r, p, -1, -1, Tail(dirs))
          ELSE IF Head(dirs) = 1
          THEN Piece(Most(H) + p.n, hi - Most(H) - p.n) \o Mixed(r, p, lo, Most(H), Tail(dirs))
          ELSE Piece(lo, Least(H) - lo) \o Mixed(r, p, Least(H) + p.n, hi, Tail(dirs))
Show(ps) == <<Len(ps)>> \o Flat([j \in 1..Len(ps) |-> Piece(ps[j][1], ps[j][2] - ps[j][1])])
Finding(r, p) ==
  LET n == Len(r) H == Hits(r, p, 0, n)
  IN <<IF H = {} THEN -1 ELSE Least(H)>>
     \o (IF p.n = 0 THEN <<>> ELSE <<IF H = {} THEN -1 ELSE Most(H)>>) \o <<B01(H # {})>>
Splitting(r, p, dirs) ==
  LET n == Len(r) H == Hits(r, p, 0, n)
      Once(k) == IF H = {} THEN NoPiece \o NoPiece ELSE Piece(0, k) \o Piece(k + p.n, n - k - p.n)
  IN Once(Least(H)) \o Once(Most(H)) \o Show(Split(r, p, 0, n)) \o Show(RSplit(r, p, 0, n))
     \o Mixed(r, p, 0, n, dirs)
Affixes(r, w) ==
  LET n == Len(r) m == Len(w)
      starts == m <= n /\ SubSeq(r, 1, m) = w
      ends == m <= n /\ SubSeq(r, n - m + 1, n) = w
  IN <<B01(starts), B01(ends)>>
     \o (IF starts THEN Piece(m, n - m) ELSE NoPiece)
     \o (IF ends THEN Piece(0, n - m) ELSE NoPiece)
     \o <<B01(starts)>> \o (IF starts THEN Piece(m, n - m) ELSE Piece(0, n))
     \o <<B01(ends)>> \o (IF ends THEN Piece(0, n - m) ELSE Piece(0, n))

(***************************************************************************)
(* Ordering: lexicographic.                                                *)
(***************************************************************************)
RECURSIVE Cmp(_, _, _)
Cmp(x, y, p) ==
  IF p > Len(x) THEN (IF p > Len(y) THEN 0 ELSE -1)
  ELSE IF p > Len(y) THEN 1
  ELSE IF x[p] # y[p] THEN (IF x[p] < y[p] THEN -1 ELSE 1)
  ELSE Cmp(x, y, p + 1)
Comparison(x, y) == LET c == Cmp(x, y, 1) q == B01(c = 0)
                    IN <<q, 1 - q, c, B01(c < 0), B01(c <= 0), B01(c > 0), B01(c >= 0)>>

(***************************************************************************)
(* Sorting and bisecting. Elements carry a rank and an identity.           *)
(***************************************************************************)
IsPermutation(x, y) ==
  Len(x) = Len(y) /\ \A e \in {x[j] : j \in 1..Len(x)} \union {y[j] : j \in 1..Len(y)} :
    Cardinality({j \in 1..Len(x) : x[j] = e}) = Cardinality({j \in 1..Len(y) : y[j] = e})
Ordered(x, rk) == \A j \in 1..(Len(x) - 1) : rk[x[j]] <= rk[x[j + 1]]
\* The only stable result: order by rank, then by original position.
RECURSIVE StableSort(_, _)
StableSort(x, rk) ==
  IF x = <<>> THEN <<>>
  ELSE LET lo == Least({rk[x[j]] : j \in 1..Len(x)})
       IN SelectSeq(x, LAMBDA e : rk[e] = lo) \o StableSort(SelectSeq(x, LAMBDA e : rk[e] # lo), rk)
\* x is sorted; where may a probe of rank q be reported?
BisectFound(x, rk, q) == {j \in 0..(Len(x) - 1) : rk[x[j + 1]] = q}
BisectInsert(x, rk, q) == Cardinality({j \in 1..Len(x) : rk[x[j]] < q})

(***************************************************************************)
(* Bulk transfers through a temporary.                                     *)
(***************************************************************************)
Overwrite(x, dst, ys) == [j \in 1..Len(x) |-> IF j > dst /\ j <= dst + Len(ys) THEN ys[j - dst] ELSE x[j]]
Transfer(x, dst, src, n) == Overwrite(x, dst, SubSeq(x, src + 1, src + n))
Swapped(x, a, b) == [x EXCEPT ![a + 1] = x[b + 1], ![b + 1] = x[a + 1]]
Reversed(x) == [j \in 1..Len(x) |-> x[Len(x) + 1 - j]]
=============================================================================
