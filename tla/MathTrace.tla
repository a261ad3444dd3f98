----------------------------- MODULE MathTrace -----------------------------
(* Integer arithmetic, bit operations and number parsing: what each call     *)
(* must return, as exact integer mathematics.                                *)
EXTENDS FnTrace, Big

T(c) == [w |-> c[1], s |-> c[2]]
L(a, k) == SubSeq(a, k, k + 3)
B2N(b) == IF b THEN 1 ELSE 0

\* ---- overflow-tracking arithmetic ----
\* a = <<wA, sA, a*4, ofA, wB, sB, b*4, ofB>>
TA(a) == [w |-> a[1], s |-> a[2]]
TB(a) == [w |-> a[8], s |-> a[9]]
VA(a) == FromLimbs(L(a, 3), a[2])
VB(a) == FromLimbs(L(a, 10), a[9])
OF(a) == a[7] = 1 \/ a[14] = 1
Tracked(x, t, of) == Ok(ToLimbs(Cast(x, t)) \o <<B2N(of \/ ~Fits(x, t))>>)
Exact(op, a) ==
  LET C == Common(TA(a), TB(a)) x == Cast(VA(a), C) y == Cast(VB(a), C)
  IN CASE op = "add" -> Add(x, y) [] op = "sub" -> Sub(x, y) [] op = "mul" -> Mul(x, y)
Clamp(x, t) == IF Cmp(x, MinOf(t)) < 0 THEN MinOf(t)
               ELSE IF Cmp(x, MaxOf(t)) > 0 THEN MaxOf(t) ELSE x
Bitwise(op, a) ==
  LET C == Common(TA(a), TB(a))
      p == Bit(VA(a), C.w) q == Bit(VB(a), C.w)
      r == [j \in 1..C.w |->
              CASE op = "and" -> p[j] * q[j]
                [] op = "or"  -> Max2(p[j], q[j])
                [] op = "xor" -> (p[j] + q[j]) % 2]
  IN Ok(ToLimbs(Cast(FromBits(r), C)) \o <<B2N(OF(a))>>)
Abs(x) == Z(FALSE, x.mag)
\* Division is specified by the relation that determines it.
IsDiv(x, y, q, r) ==
  /\ Add(Mul(q, y), r) = x
  /\ Cmp(Abs(r), Abs(y)) < 0
  /\ (r.mag # <<>> => r.neg = x.neg)
DivOk(e) ==
  LET a == e.a C == Common(TA(a), TB(a)) x == Cast(VA(a), C) y == Cast(VB(a), C)
      edge == C.s = 1 /\ x = MinOf(C) /\ y = Small(-1)
      q == FromLimbs(L(e.v, 1), C.s) r == FromLimbs(L(e.v, 6), C.s)
  IN IF VB(a).mag = <<>> THEN e.k = "crash"
     ELSE /\ e.k = "ok"
          /\ IF edge THEN e.v = ToLimbs(x) \o <<1>> \o ToLimbs(x) \o <<1>>   \* both underflow
             ELSE /\ IsDiv(x, y, q, r)
                  /\ Fits(q, C) /\ Fits(r, C)
                  /\ e.v[5] = B2N(OF(a)) /\ e.v[10] = B2N(OF(a))
CeilOk(e) ==
  LET a == e.a C == TA(a) x == VA(a) y == VB(a)
      q == FromLimbs(L(e.v, 1), C.s)
      \* q is the ceiling of x/y: 0 <= q - x/y < 1, scaled by y
      d == IF y.neg THEN Sub(x, Mul(q, y)) ELSE Sub(Mul(q, y), x)
  IN IF y.mag = <<>> THEN e.k = "crash"
     ELSE /\ e.k = "ok"
          /\ IF C.s = 1 /\ x = MinOf(C) /\ y = Small(-1)
             THEN e.v = ToLimbs(x) \o <<1>>
             ELSE /\ ~d.neg /\ Cmp(d, Abs(y)) < 0
                  /\ e.v[5] = B2N(OF(a))
\* Shift amounts outside [0, bits) wrap and count as overflow.
ShiftOk(op, a) ==
  LET t == TA(a) y == VB(a) w == t.w
      n == SumTo(SubSeq(Bit(y, 64), 1, IF w = 32 THEN 5 ELSE 6), 1, IF w = 32 THEN 5 ELSE 6)
      p == Bit(VA(a), w)
      r == IF op = "shl" THEN [j \in 1..w |-> IF j > n THEN p[j - n] ELSE 0]
           ELSE [j \in 1..w |-> IF j + n <= w THEN p[j + n] ELSE IF t.s = 1 THEN p[w] ELSE 0]
  IN Ok(ToLimbs(Cast(FromBits(r), t)) \o <<B2N(OF(a) \/ Cmp(y, Small(n)) # 0)>>)
Unary(op, a) ==
  LET t == TA(a) x == VA(a)
  IN CASE op = "neg" -> Tracked(Neg(x), t, a[7] = 1)
       [] op = "not" -> Ok(ToLimbs(Cast(Sub(Small(-1), x), t)) \o <<a[7]>>)
       [] op = "pos" -> Ok(ToLimbs(x) \o <<a[7]>>)
       [] op = "strict" -> IF a[7] = 1 THEN Crash ELSE Ok(ToLimbs(x))
       [] op = "checked" -> IF a[7] = 1 THEN None ELSE Ok(ToLimbs(x))
       [] op = "wrap" -> Ok(ToLimbs(x))

\* ---- conversions and comparisons ----
Sgn(n) == Ok(<<IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0>>)
AsSigned(x, t) == Cast(x, [w |-> t.w, s |-> 1])
AsUnsigned(x, t) == Cast(x, [w |-> t.w, s |-> 0])
MinMax(op, a) ==
  LET lo == IF Cmp(VA(a), VB(a)) <= 0 THEN VA(a) ELSE VB(a)
      hi == IF Cmp(VA(a), VB(a)) <= 0 THEN VB(a) ELSE VA(a)
  IN Ok(ToLimbs(IF op = "min" THEN lo ELSE hi))

\* ---- bits: a = <<w, s, x*4, amount>> ----
RECURSIVE Run(_, _, _, _)
\* Number of leading entries of b, from position j in direction d, equal to v.
Run(b, j, d, v) == IF j < 1 \/ j > Len(b) THEN 0
                   ELSE IF b[j] # v THEN 0 ELSE 1 + Run(b, j + d, d, v)
BitFn(op, a) ==
  LET t == TA(a) w == t.w b == Bit(VA(a), w)
      n == IF a[7] > 1000000 THEN 1000000 ELSE a[7]
      ones == Cardinality({j \in 1..w : b[j] = 1})
      word(r) == Ok(ToLimbs(Cast(FromBits(r), t)))
      top == IF ones = 0 THEN 0 ELSE w - Run(b, w, -1, 0)   \* index of highest set bit, 1-based
      nextp == IF top = 0 THEN <<1>> ELSE Pow2(top)
      nov == top = w
  IN CASE op = "count_ones" -> Ok(<<ones>>)
       [] op = "count_zeros" -> Ok(<<w - ones>>)
       [] op = "leading_zeros" -> Ok(<<Run(b, w, -1, 0)>>)
       [] op = "leading_ones" -> Ok(<<Run(b, w, -1, 1)>>)
       [] op = "trailing_zeros" -> Ok(<<Run(b, 1, 1, 0)>>)
       [] op = "trailing_ones" -> Ok(<<Run(b, 1, 1, 1)>>)
       [] op = "shift_left" -> word([j \in 1..w |-> IF j > n THEN b[j - n] ELSE 0])
       [] op = "shift_right" -> word([j \in 1..w |-> IF j + n <= w THEN b[j + n] ELSE 0])
       [] op = "shift_sign" -> word([j \in 1..w |-> IF j + n <= w THEN b[j + n] ELSE b[w]])
       [] op = "rotate_left" -> word([j \in 1..w |-> b[((j - 1 - n) % w) + 1]])
       [] op = "rotate_right" -> word([j \in 1..w |-> b[((j - 1 + n) % w) + 1]])
       [] op = "is_pow2" -> Ok(<<B2N(ones = 1)>>)
       [] op = "next_pow2_minus1" -> Ok(ToLimbs(Z(FALSE, NSub(nextp, <<1>>))))
       [] op = "wrapping_next_pow2" -> Ok(ToLimbs(IF nov THEN Small(0) ELSE Z(FALSE, nextp)))
       [] op = "checked_next_pow2" -> IF nov THEN None ELSE Ok(ToLimbs(Z(FALSE, nextp)))
       [] op = "next_pow2" -> IF nov THEN Crash ELSE Ok(ToLimbs(Z(FALSE, nextp)))
       [] op = "bits_for" -> Ok(<<top>>)

\* ---- parsing: a = <<w, s, neg, radix, n, code points...>> ----
DigitVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
               ELSE IF c >= 97 /\ c <= 122 THEN c - 87
               ELSE IF c >= 65 /\ c <= 90 THEN c - 55 ELSE 99
RECURSIVE Mag(_, _, _)
Mag(s, radix, acc) == IF s = <<>> THEN acc
                      ELSE Mag(Tail(s), radix, NAdd(NMulSmall(acc, radix), NSmall(DigitVal(Head(s)))))
Parse(s, neg, radix, t) ==
  IF s = <<>> \/ \E j \in 1..Len(s) : DigitVal(s[j]) >= radix THEN Err
  ELSE LET x == Z(neg, Mag(s, radix, <<>>))
       IN IF Fits(x, t) THEN Ok(ToLimbs(x)) ELSE Err
Signed(s) == IF s # <<>> /\ s[1] = 45 THEN [neg |-> TRUE, s |-> Tail(s)]
             ELSE IF s # <<>> /\ s[1] = 43 THEN [neg |-> FALSE, s |-> Tail(s)]
             ELSE [neg |-> FALSE, s |-> s]
HasPre(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Prefixed(x, t) ==
  LET s == x.s
  IN IF s = <<48>> THEN Ok(ToLimbs(Small(0)))
     ELSE IF HasPre(s, <<48, 120>>) THEN Parse(Drop(s, 2), x.neg, 16, t)
     ELSE IF HasPre(s, <<48, 98>>) THEN Parse(Drop(s, 2), x.neg, 2, t)
     ELSE IF HasPre(s, <<48, 111>>) THEN Parse(Drop(s, 2), x.neg, 8, t)
     ELSE IF HasPre(s, <<48>>) THEN Parse(Drop(s, 1), x.neg, 8, t)
     ELSE Parse(s, x.neg, 10, t)
Atoi(op, a) ==
  LET t == TA(a) neg == a[3] = 1 radix == a[4] s == SubSeq(a, 6, 5 + a[5])
  IN IF radix > 36 THEN Crash
     ELSE CASE op = "atoi" -> Parse(Signed(s).s, Signed(s).neg, radix, t)
            [] op = "atoi_sign" -> Parse(s, neg, radix, t)
            [] op = "atoi_prefix" -> Prefixed(Signed(s), t)

Accept(e) ==
  LET o == e.op a == e.a IN
  CASE o \in {"add", "sub", "mul"} ->
         Match(e, Tracked(Exact(o, a), Common(TA(a), TB(a)), OF(a)))
    [] o \in {"sadd", "ssub", "smul"} ->
         LET C == Common(TA(a), TB(a))
             n == CASE o = "sadd" -> "add" [] o = "ssub" -> "sub" [] o = "smul" -> "mul"
         IN Match(e, Ok(ToLimbs(Clamp(Exact(n, a), C))))
    [] o \in {"and", "or", "xor"} -> Match(e, Bitwise(o, a))
    [] o = "div" -> Judge(DivOk(e), "truncated quotient and remainder")
    [] o = "ceildiv" -> Judge(CeilOk(e), "quotient rounded towards +infinity")
    [] o \in {"shl", "shr"} -> Match(e, ShiftOk(o, a))
    [] o \in {"neg", "not", "pos", "strict", "checked", "wrap"} -> Match(e, Unary(o, a))
    [] o = "convert" -> Match(e, Tracked(VA(a), TB(a), a[7] = 1))
    [] o = "int_cmp" -> Match(e, Sgn(Cmp(VA(a), VB(a))))
    [] o = "signed_cmp" -> Match(e, Sgn(Cmp(AsSigned(VA(a), TA(a)), AsSigned(VB(a), TB(a)))))
    [] o = "unsigned_cmp" -> Match(e, Sgn(Cmp(AsUnsigned(VA(a), TA(a)), AsUnsigned(VB(a), TB(a)))))
    [] o = "int_fits" -> Match(e, Ok(<<B2N(Fits(VA(a), TB(a)))>>))
    [] o = "checked_cast" -> Match(e, IF Fits(VA(a), TB(a)) THEN Ok(ToLimbs(VA(a))) ELSE None)
    [] o \in {"min", "max"} -> Match(e, MinMax(o, a))
    [] o \in {"limits"} -> Match(e, Ok(ToLimbs(MinOf(TA(a))) \o ToLimbs(MaxOf(TA(a)))))
    [] o \in {"atoi", "atoi_sign", "atoi_prefix"} -> Match(e, Atoi(o, a))
    [] OTHER -> Match(e, BitFn(o, a))
Next == i <= Len(Trace) /\ i' = i + 1 /\ Accept(Trace[i])
=============================================================================
