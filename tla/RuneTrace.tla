----------------------------- MODULE RuneTrace -----------------------------
(* Code point construction, classification, digits, case and escapes.        *)
EXTENDS FnTrace, RuneDefs

\* from_int: a = <<high 16 bits, low 16 bits>>
FromInt(a, sur) == IF a[1] > 16 THEN None
                   ELSE LET c == a[1] * 65536 + a[2]
                        IN IF InUnicode(c) /\ (sur \/ ~IsSurrogate(c)) THEN Ok(<<c>>) ELSE None
Accept(e) ==
  LET o == e.op a == e.a IN
  CASE o = "from_int" -> Match(e, FromInt(a, FALSE))
    [] o = "from_int_sur" -> Match(e, FromInt(a, TRUE))
    [] o = "class" -> Judge(e.k = "ok" /\ Len(e.v) = a[2] /\
                            \A j \in 1..a[2] : e.v[j] = Mask(Classes(a[1] + j - 1), 1),
                            "classes by definition")
    [] o = "case" -> Judge(e.k = "ok" /\ Len(e.v) = 2 * a[2] /\
                           \A j \in 1..a[2] : /\ e.v[2 * j - 1] = ToLower(a[1] + j - 1)
                                              /\ e.v[2 * j] = ToUpper(a[1] + j - 1),
                           "ASCII case mapping")
    [] o = "to_digit" -> Match(e, IF a[2] > 36 THEN Crash
                                  ELSE IF DigitVal(a[1]) < a[2] THEN Ok(<<DigitVal(a[1]), 1>>) ELSE Ok(<<-1, 0>>))
    [] o = "from_digit" -> Match(e, IF a[2] > 36 THEN Crash
                                    ELSE IF a[1] < a[2] THEN Ok(<<DigitOf(a[1])>>) ELSE None)
    [] o = "escaped" -> Match(e, Ok(Escape(a[1])))
    [] o = "quoted" -> Match(e, Ok(<<39>> \o Escape(a[1]) \o <<39>>))
    [] o = "display" -> Match(e, Ok(<<a[1]>>))
    [] o = "default" -> Match(e, Ok(<<0>>))
Next == i <= Len(Trace) /\ i' = i + 1 /\ Accept(Trace[i])
=============================================================================
