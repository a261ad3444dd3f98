---------------------------- MODULE IoerrTrace ----------------------------
(* Recorded error numbers, against the platform's table of errors: for each  *)
(* number the names it goes by and its message, as bytes.                    *)
EXTENDS FnTrace
Table == JsonDeserialize(IOEnv.ERRORS)
Known(n) == n >= 1 /\ n <= Len(Table) /\ Len(Table[n].names) > 0
B01(x) == IF x THEN 1 ELSE 0
Put(s) == <<Len(s)>> \o s
Names(n) == {Table[n].names[j] : j \in 1..Len(Table[n].names)}
\* "Error ", ": <unknown error>", ": (", "), "
W1 == <<69, 114, 114, 111, 114, 32>>
W2 == <<58, 32, 60, 117, 110, 107, 110, 111, 119, 110, 32, 101, 114, 114, 111, 114, 62>>
W3 == <<58, 32, 40>>
W4 == <<41, 44, 32>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Answers(n) == IF Known(n) THEN {<<n, n>> \o Put(s) \o Put(Table[n].msg) : s \in Names(n)} ELSE {<<n, n, -1, -1>>}
Shown(n) == IF Known(n) THEN {Put(W1 \o Dec(n) \o W3 \o s \o W4 \o Table[n].msg) : s \in Names(n)}
            ELSE {Put(W1 \o Dec(n) \o W2)}
Among(e, s) == Judge(e.k = "ok" /\ e.v \in s, s)
Judged(e) ==
  LET x == e.a[1]
  IN IF e.op # "current" /\ \E j \in 1..Len(e.a) : e.a[j] <= 0 THEN Match(e, Crash)
     ELSE CASE e.op = "err" -> Among(e, Answers(x))
            [] e.op = "shown" -> Among(e, Shown(x))
            [] e.op = "cmp" -> LET y == e.a[2] IN
                 Match(e, Ok(<<B01(x = y), B01(x # y), B01(x < y), B01(x > y), B01(x <= y), B01(x >= y)>>))
            [] e.op = "current" -> IF x = 0 THEN Match(e, Ok(<<0, 0>>)) ELSE IF x < 0 THEN Match(e, Crash)
                                   ELSE Match(e, Ok(<<1, x>>))
            [] e.op = "option" -> Match(e, Ok(<<0, 1, x, 0>>))
Next == i <= Len(Trace) /\ Judged(Trace[i]) /\ i' = i + 1
=============================================================================
