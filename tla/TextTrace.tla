----------------------------- MODULE TextTrace -----------------------------
(* Recorded calls on views of text, against TextDefs.                        *)
EXTENDS FnTrace, TextDefs

From(a) == LET e == a[1] u == SubSeq(a, 3, 2 + a[2]) n == Len(u) g == GoodPrefix(e, u)
           IN Ok((IF Valid(e, u) THEN <<1>> \o Piece(0, n) ELSE <<0, 0, 0>>)
                 \o Piece(0, g) \o Piece(g, n - g))
\* From a NUL-terminated array (the terminator follows the listed units).
RECURSIVE NulAt(_, _)
NulAt(u, p) == IF p > Len(u) \/ u[p] = 0 THEN p - 1 ELSE NulAt(u, p + 1)
Nul(a) == LET e == a[1] u == SubSeq(a, 3, 2 + a[2]) n == NulAt(u, 1)
              ok == Valid(e, SubSeq(u, 1, n))
          IN Ok(<<B(ok), IF ok THEN n ELSE 0, n>>)

\* v holds, per step: hint lower, hint upper (-1 if unknown), offset, code
\* point, where the rest starts and its size; then the count of what is left.
RECURSIVE IterOk(_, _, _, _, _, _, _, _)
IterOk(e, w, u, lo, hi, dirs, v, p) ==
  IF dirs = <<>> THEN p = Len(v) /\ v[p] = CountFrom(e, u, lo, hi)
  ELSE LET s == Step(e, u, lo, hi, Head(dirs) = 1)
           left == CountFrom(e, u, lo, hi)
           at == IF s.cp = -2 THEN -2 ELSE IF w \in {2, 4} THEN s.at ELSE 0
           cp == IF s.cp = -1 /\ w # 0 THEN Replacement ELSE s.cp
       IN /\ p + 6 <= Len(v)
          /\ v[p] <= left /\ (v[p + 1] = -1 \/ left <= v[p + 1])
          /\ SubSeq(v, p + 2, p + 5) = <<at, cp>> \o Piece(s.lo, s.hi - s.lo)
          /\ IterOk(e, w, u, s.lo, s.hi, Tail(dirs), v, p + 6)
Iter(ev) == LET a == ev.a e == a[1] w == a[2] u == SubSeq(a, 4, 3 + a[3])
                dirs == SubSeq(a, 5 + a[3], Len(a))
            IN IF w \in {3, 4} /\ ~Valid(e, u) THEN Match(ev, None)
               ELSE Judge(ev.k = "ok" /\ IterOk(e, w, u, 0, Len(u), dirs, ev.v, 1), "iteration")

String(a) == LET e == a[1] n == a[2] u == SubSeq(a, 3, 2 + n)
                 f == a[3 + n] w == SubSeq(a, 5 + n, Len(a))
                 x == Search(e, u, StringPat(Runes(f, w)), <<>>)
             IN Ok(x)
RuneOrPred(a, IsRune) ==
  LET e == a[1] n == a[2] u == SubSeq(a, 3, 2 + n) x == a[3 + n]
      dirs == SubSeq(a, 5 + n, Len(a))
  IN Ok(Search(e, u, IF IsRune THEN StringPat(<<x>>) ELSE PredPat(x), dirs))

Bounds(a) == LET e == a[1] u == SubSeq(a, 3, 2 + a[2]) S == OffsetSet(e, u)
             IN Ok([j \in 1..(Len(u) + 2) |-> B((j - 1) \in S)])
Slice(a, refused) ==
  LET e == a[1] n == a[2] u == SubSeq(a, 3, 2 + n) S == OffsetSet(e, u)
      lo == a[3 + n]
      hi == CASE a[4 + n] = 0 -> n [] a[4 + n] = 1 -> a[5 + n] [] a[4 + n] = 2 -> a[5 + n] + 1 [] OTHER -> lo + a[5 + n]
  IN IF lo <= hi /\ hi <= n /\ lo \in S /\ hi \in S THEN Ok(Piece(lo, hi - lo)) ELSE refused
SplitAt(a) ==
  LET e == a[1] n == a[2] u == SubSeq(a, 3, 2 + n) S == OffsetSet(e, u) k == a[3 + n]
  IN IF k \in S THEN Ok(Piece(0, k) \o Piece(k, n - k)) ELSE None

Compare(a) == LET e == a[1] n == a[2] x == Runes(e, SubSeq(a, 3, 2 + n))
                  f == a[3 + n] y == Runes(f, SubSeq(a, 5 + n, Len(a)))
                  c == Cmp(x, y, 1) q == B(c = 0)
              IN Ok(<<q, c, q, c, q, 0 - c, 1 - q, B(c < 0), B(c <= 0), B(c > 0), B(c >= 0)>>
                    \o (IF e = f THEN <<q, q>> ELSE <<>>))
CompareRune(a) == LET e == a[1] n == a[2] x == Runes(e, SubSeq(a, 3, 2 + n))
                      c == Cmp(x, <<a[3 + n]>>, 1) q == B(c = 0)
                  IN Ok(<<q, c, q, c>>)

Accept(ev) ==
  LET o == ev.op a == ev.a IN
  CASE o = "from" -> Match(ev, From(a))
    [] o = "nul" -> Match(ev, Nul(a))
    [] o = "iter" -> Iter(ev)
    [] o = "string" -> Match(ev, String(a))
    [] o = "rune" -> Match(ev, RuneOrPred(a, TRUE))
    [] o = "pred" -> Match(ev, RuneOrPred(a, FALSE))
    [] o = "bounds" -> Match(ev, Bounds(a))
    [] o = "at" -> Match(ev, Slice(a, None))
    [] o = "index" -> Match(ev, Slice(a, Crash))
    [] o = "splitat" -> Match(ev, SplitAt(a))
    [] o = "text" -> Match(ev, Compare(a))
    [] o = "cmprune" -> Match(ev, CompareRune(a))
Next == i <= Len(Trace) /\ i' = i + 1 /\ Accept(Trace[i])
=============================================================================
