----------------------------- MODULE SliceTrace -----------------------------
(* Recorded slicing, indexing and end access, against exact arithmetic on    *)
(* offsets of any size.                                                      *)
EXTENDS FnTrace, SpanDefs
Z == INSTANCE Big
U64 == [w |-> 64, s |-> 0]
Num(a, p) == Z!FromLimbs(SubSeq(a, p, p + 3), 0)
\* An optional number at p: its value, if any, and where the next one is.
Opt(a, p) == IF a[p] = 0 THEN [has |-> FALSE, val |-> Z!Small(0), nx |-> p + 1]
             ELSE [has |-> TRUE, val |-> Num(a, p + 1), nx |-> p + 5]
RangeAt(a, p) ==
  LET e == Opt(a, p + 4) inc == Opt(a, e.nx) k == Opt(a, inc.nx)
  IN [start |-> Num(a, p), e |-> e, i |-> inc, k |-> k]
\* The exclusive stop a range designates; n is the size of the whole, if known.
Bounded(r) == r.e.has \/ r.i.has \/ r.k.has
Stop(r, n) == IF r.e.has THEN r.e.val
              ELSE IF r.i.has THEN Z!Add(r.i.val, Z!Small(1))
              ELSE IF r.k.has THEN Z!Add(r.start, r.k.val)
              ELSE n
Le(x, y) == Z!Cmp(x, y) <= 0
Inside(r, n) == Le(r.start, Stop(r, n)) /\ Le(Stop(r, n), n)
ToInt(x) == LET d(j) == Z!D(x.mag, j) IN d(1) + 256 * d(2) + 65536 * d(3)
Lo(r) == ToInt(r.start)
Count(r, n) == ToInt(Z!Sub(Stop(r, n), r.start))

Slice(a) == LET n == Z!Small(a[2]) r == RangeAt(a, 3)
            IN Ok(IF Inside(r, n)
                  THEN <<Count(r, n)>> \o Piece(Lo(r), Count(r, n)) \o Piece(Lo(r), Count(r, n))
                  ELSE <<-1, -1, -1>>)
Index(a) == LET n == Z!Small(a[2]) r == RangeAt(a, 3)
            IN IF Inside(r, n) THEN Ok(Piece(Lo(r), Count(r, n))) ELSE Crash
CountOf(a) == LET n == Z!Small(a[2]) r == RangeAt(a, 3)
              IN IF Inside(r, n) THEN Ok(<<Count(r, n)>>) ELSE Crash
\* With an enclosing size that may be unknown or huge.
Free(a) == LET m == Opt(a, 1) r == RangeAt(a, m.nx)
               Fine == IF m.has THEN Inside(r, m.val)
                       ELSE Bounded(r) /\ Le(r.start, Stop(r, m.val)) /\ Le(Stop(r, m.val), Z!Add(Z!MaxOf(U64), Z!Small(1)))
           IN IF Fine THEN Ok(Z!ToLimbs(Z!Sub(Stop(r, m.val), r.start))) ELSE None
Elem(a, refused) == LET x == Num(a, 3)
                    IN IF Z!Cmp(x, Z!Small(a[2])) < 0 THEN Ok(<<ToInt(x)>>) ELSE refused
Parts(n, m) ==
  IF m > n THEN [j \in 1..12 |-> -1]
  ELSE Piece(0, m) \o Piece(n - m, m) \o Piece(0, m) \o Piece(m, n - m) \o Piece(n - m, m) \o Piece(0, n - m)
Ends(n) ==
  (IF n = 0 THEN [j \in 1..8 |-> -1]
   ELSE <<0, n - 1, 0>> \o Piece(1, n - 1) \o <<n - 1>> \o Piece(0, n - 1))
  \o Parts(n, 0) \o Parts(n, 1) \o Parts(n, 2) \o Parts(n, 3) \o Parts(n, 6)
\* Taking from either end of [lo, hi) shrinks it by what was taken.
RECURSIVE Takes(_, _, _, _)
Takes(a, p, lo, hi) ==
  IF p > Len(a) THEN <<>>
  ELSE LET m == Num(a, p + 1)
       IN IF Z!Cmp(m, Z!Small(hi - lo)) > 0
          THEN NoPiece \o Piece(lo, hi - lo) \o Takes(a, p + 5, lo, hi)
          ELSE LET k == ToInt(m)
               IN IF a[p] = 1
                  THEN Piece(hi - k, k) \o Piece(lo, hi - k - lo) \o Takes(a, p + 5, lo, hi - k)
                  ELSE Piece(lo, k) \o Piece(lo + k, hi - lo - k) \o Takes(a, p + 5, lo + k, hi)
Contents(n) == [j \in 1..n |-> 99 + j]
Swap(a) == LET n == Z!Small(a[2]) x == Num(a, 3) y == Num(a, 7)
           IN IF Z!Cmp(x, n) < 0 /\ Z!Cmp(y, n) < 0
              THEN Ok(Swapped(Contents(a[2]), ToInt(x), ToInt(y))) ELSE Crash
SplitAt(a) == LET n == a[2] x == Num(a, 3)
              IN Ok(IF Z!Cmp(x, Z!Small(n)) > 0 THEN NoPiece \o NoPiece
                    ELSE Piece(0, ToInt(x)) \o Piece(ToInt(x), n - ToInt(x)))
\* The compile-time ranges of the driver, as <<start, stop>>.
FixedRanges == <<<<0, 0>>, <<1, 3>>, <<2, 3>>, <<1, 5>>, <<4, 4>>, <<0, 4>>, <<3, 4>>>>
Fixed(a) == LET r == FixedRanges[a[3] + 1]
            IN IF r[2] <= a[2] THEN Ok(Piece(r[1], r[2] - r[1]))
               ELSE IF a[1] >= 0 THEN None ELSE Crash
RECURSIVE NulAt(_, _)
NulAt(u, p) == IF p > Len(u) \/ u[p] = 0 THEN p - 1 ELSE NulAt(u, p + 1)
Nul(a) == LET k == NulAt(Tail(a), 1) IN Ok(<<0, k, k, 0>>)

\* A statically sized span cannot be made from a range of another size.
Judged(ev) ==
  LET a == ev.a
  IN CASE ev.op = "free" -> Match(ev, Free(a))
       [] ev.op = "nul" -> Match(ev, Nul(a))
       [] ev.op \notin {"free", "nul"} /\ a[1] >= 0 /\ a[1] # a[2] -> Match(ev, Crash)
       [] ev.op = "slice" -> Match(ev, Slice(a))
       [] ev.op = "index" -> Match(ev, Index(a))
       [] ev.op = "count" -> Match(ev, CountOf(a))
       [] ev.op = "elem" -> Match(ev, Elem(a, Ok(<<-1>>)))
       [] ev.op = "eindex" -> Match(ev, Elem(a, Crash))
       [] ev.op = "ends" -> Match(ev, Ok(Ends(a[2])))
       [] ev.op = "takes" -> Match(ev, Ok(Takes(a, 3, 0, a[2])))
       [] ev.op = "swap" -> Match(ev, Swap(a))
       [] ev.op = "reverse" -> Match(ev, Ok(Reversed(Contents(a[2]))))
       [] ev.op = "splitat" -> Match(ev, SplitAt(a))
       [] ev.op = "fixed" -> Match(ev, Fixed(a))
       [] ev.op = "sub" -> Match(ev, Ok(<<B01(a[3] >= 0 /\ a[4] >= 0 /\ a[3] + a[4] <= a[2]), 0>>))
Next == i <= Len(Trace) /\ Judged(Trace[i]) /\ i' = i + 1
=============================================================================
