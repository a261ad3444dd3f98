------------------------------- MODULE Big -------------------------------
(* Arbitrary-precision integers for TLC, whose own integers are 32 bits.     *)
(* A natural is a little-endian sequence of base-256 digits, no leading      *)
(* zeros (zero is <<>>); an integer is [neg |-> BOOLEAN, mag |-> natural].   *)
(* Machine words arrive as four 16-bit limbs, low first (two's complement,   *)
(* sign-extended to 64 bits when the type is signed).                        *)
EXTENDS Integers, Sequences

B == 256
RECURSIVE Norm(_)
Norm(a) == IF a = <<>> THEN a
           ELSE IF a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
D(a, j) == IF j <= Len(a) THEN a[j] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, j) == IF j = 0 THEN 0
                  ELSE IF a[j] < b[j] THEN -1
                  ELSE IF a[j] > b[j] THEN 1 ELSE CmpAt(a, b, j - 1)
\* Comparison of normalised naturals.
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))

RECURSIVE AddC(_, _, _, _, _)
AddC(a, b, j, c, acc) ==
  IF j > Max2(Len(a), Len(b)) THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET s == D(a, j) + D(b, j) + c
       IN AddC(a, b, j + 1, s \div B, Append(acc, s % B))
NAdd(a, b) == AddC(a, b, 1, 0, <<>>)

RECURSIVE SubC(_, _, _, _, _)
SubC(a, b, j, c, acc) ==
  IF j > Len(a) THEN Norm(acc)
  ELSE LET s == a[j] - D(b, j) - c
       IN SubC(a, b, j + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, s % B))
NSub(a, b) == SubC(a, b, 1, 0, <<>>)        \* requires a >= b

RECURSIVE MulD(_, _, _, _, _)
MulD(a, d, j, c, acc) ==
  IF j > Len(a) THEN Norm(IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == a[j] * d + c IN MulD(a, d, j + 1, s \div B, Append(acc, s % B))
NMulSmall(a, d) == MulD(a, d, 1, 0, <<>>)   \* d < 2^16
RECURSIVE MulC(_, _, _)
MulC(a, b, j) ==
  IF j > Len(b) THEN <<>>
  ELSE LET rest == MulC(a, b, j + 1)
       IN NAdd(NMulSmall(a, b[j]), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
NMul(a, b) == Norm(MulC(a, b, 1))
NSmall(n) == Norm(<<n % B, (n \div B) % B, (n \div 65536) % B, n \div 16777216>>)
RECURSIVE Pow2(_)
Pow2(n) == IF n < 8 THEN <<2 ^ n>> ELSE <<0>> \o Pow2(n - 8)

Z(neg, mag) == [neg |-> neg /\ mag # <<>>, mag |-> mag]
Small(n) == IF n < 0 THEN Z(TRUE, NSmall(-n)) ELSE Z(FALSE, NSmall(n))
Neg(x) == Z(~x.neg, x.mag)
Cmp(x, y) == IF x.neg # y.neg THEN IF x.neg THEN -1 ELSE 1
             ELSE IF x.neg THEN NCmp(y.mag, x.mag) ELSE NCmp(x.mag, y.mag)
Add(x, y) == IF x.neg = y.neg THEN Z(x.neg, NAdd(x.mag, y.mag))
             ELSE IF NCmp(x.mag, y.mag) >= 0 THEN Z(x.neg, NSub(x.mag, y.mag))
             ELSE Z(y.neg, NSub(y.mag, x.mag))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Z(x.neg # y.neg, NMul(x.mag, y.mag))

\* ---- machine words: type [w |-> bits, s |-> 1 if signed] ----
Digits(l) == <<l[1] % B, l[1] \div B, l[2] % B, l[2] \div B,
               l[3] % B, l[3] \div B, l[4] % B, l[4] \div B>>
Trunc(a, bytes) == Norm([j \in 1..bytes |-> D(a, j)])
\* The natural in [0, 2^w) congruent to x modulo 2^w.
Residue(x, w) ==
  LET m == Trunc(x.mag, w \div 8)
  IN IF x.neg /\ m # <<>> THEN NSub(Pow2(w), m) ELSE m
\* The value of type t congruent to x.
Cast(x, t) ==
  LET r == Residue(x, t.w)
  IN IF t.s = 1 /\ Len(r) = t.w \div 8 /\ r[Len(r)] >= 128
     THEN Z(TRUE, NSub(Pow2(t.w), r)) ELSE Z(FALSE, r)
FromLimbs(l, s) == Cast(Z(FALSE, Norm(Digits(l))), [w |-> 64, s |-> s])
ToLimbs(x) == LET r == Residue(x, 64)
              IN <<D(r, 1) + 256 * D(r, 2), D(r, 3) + 256 * D(r, 4),
                   D(r, 5) + 256 * D(r, 6), D(r, 7) + 256 * D(r, 8)>>
Fits(x, t) == Cast(x, t) = x
MinOf(t) == IF t.s = 1 THEN Z(TRUE, Pow2(t.w - 1)) ELSE Small(0)
MaxOf(t) == IF t.s = 1 THEN Z(FALSE, NSub(Pow2(t.w - 1), <<1>>))
            ELSE Z(FALSE, NSub(Pow2(t.w), <<1>>))
Common(t, u) == [w |-> Max2(t.w, u.w), s |-> IF t.s = 1 /\ u.s = 1 THEN 1 ELSE 0]
\* Bits of x as a w-bit word, least significant first.
Bit(x, w) == LET r == Residue(x, w)
             IN [j \in 1..w |-> (D(r, (j - 1) \div 8 + 1) \div (2 ^ ((j - 1) % 8))) % 2]
RECURSIVE SumTo(_, _, _)
SumTo(b, lo, hi) == IF lo > hi THEN 0 ELSE b[hi] * 2 ^ (hi - lo) + SumTo(b, lo, hi - 1)
\* The unsigned value of a bit sequence.
FromBits(b) == Z(FALSE, Norm([j \in 1..(Len(b) \div 8) |-> SumTo(b, 8 * j - 7, 8 * j)]))
===========================================================================
