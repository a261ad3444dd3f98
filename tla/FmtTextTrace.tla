---------------------------- MODULE FmtTextTrace ----------------------------
(* Formatted values of the real code.                                        *)
EXTENDS FnTrace, FmtText
Sp(a, p) == SubSeq(a, p, p + 11)
Text(t) == Ok(Bytes8(t))
Word(h, l) == Y!FromLimbs(<<l, h, 0, 0>>, 0)
\* a = <<kind, high, low, spec>>
RuneWant(a) ==
  LET s == Sp(a, 4) IN
  IF a[1] = 3 /\ a[2] > 16 THEN Text(BadText(s, Word(a[2], a[3])))
  ELSE Text(RuneText(s, a[2] * 65536 + a[3]))
\* a = <<encoding, form, length, units, spec>>
StrWant(a) == LET n == a[3] s == Sp(a, n + 4)
              IN Text(StrText(s, Lossy(a[1], SubSeq(a, 4, n + 3))))
\* a = <<kind, limbs, spec>>
Null == <<110, 117, 108, 108, 112, 116, 114>>
PtrWant(a) == LET s == Sp(a, 6) x == Y!FromLimbs(SubSeq(a, 2, 5), 0)
              IN IF a[1] # 3 /\ s[12] # 112 /\ x.mag = <<>> THEN Text(Null)
                 ELSE Text(IntText(Hex, x))
Accept(e) ==
  LET o == e.op a == e.a IN
  CASE o = "int" -> Match(e, Text(IntText(Sp(a, 8), Y!FromLimbs(SubSeq(a, 4, 7), a[2]))))
    [] o = "bool" -> Match(e, Text(BoolText(Sp(a, 2), a[1])))
    [] o = "rune" -> Match(e, RuneWant(a))
    [] o = "str" -> Match(e, StrWant(a))
    [] o = "ptr" -> Match(e, PtrWant(a))
Next == i <= Len(Trace) /\ i' = i + 1 /\ Accept(Trace[i])
=============================================================================
