---------------------------- MODULE LayoutTrace ----------------------------
(* Recorded layouts, against the layout algorithm on sizes and alignments.   *)
EXTENDS FnTrace, LayoutDefs
Z == INSTANCE Big
U64 == [w |-> 64, s |-> 0]
B01(x) == IF x THEN 1 ELSE 0
Members(a, p) == [j \in 1..((Len(a) - p + 1) \div 2) |-> <<a[p + 2 * j - 2], a[p + 2 * j - 1]>>]
Num(a, p) == Z!FromLimbs(SubSeq(a, p, p + 3), 0)
\* n elements of a given layout: exact, or refused if that many bytes cannot
\* be counted. Whether more than half of all addresses are refused is open.
Array(e) == LET a == e.a
                n == Z!Mul(Num(a, 4), Z!Small(a[2]))
                fits == Z!Cmp(n, Z!MaxOf(U64)) <= 0
                half == Z!Cmp(Z!Mul(n, Z!Small(2)), Z!MaxOf(U64)) <= 0
                want == Ok(Z!ToLimbs(n) \o <<a[3]>>)
            IN IF half THEN Match(e, want)
               ELSE IF fits THEN Judge(Got(e) \in {want, Crash}, want)
               ELSE Match(e, Crash)
\* What the library says, what the language says, a block of that layout.
Thrice(l) == l \o l \o l
Twice(l) == l \o l
Fits(a) == B01(a[1] <= a[3] /\ a[2] <= a[4])
Judged(e) ==
  LET a == e.a
  IN CASE e.op = "struct" -> Match(e, Ok(Twice(Struct(Members(a, 2)))))
       [] e.op = "union" -> Match(e, Ok(Twice(Union(Members(a, 2)))))
       [] e.op = "of" -> Match(e, Ok(Thrice(<<a[2], a[3]>>)))
       [] e.op = "array" -> Array(e)
       [] e.op = "fits" -> Match(e, Ok(<<Fits(a), B01(a[1] = a[3] /\ a[2] = a[4])>>))
Next == i <= Len(Trace) /\ Judged(Trace[i]) /\ i' = i + 1
=============================================================================
