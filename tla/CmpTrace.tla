------------------------------ MODULE CmpTrace ------------------------------
EXTENDS FnTrace, CmpDefs
Want(e) == LET x == Parse(e.a, 2)
               y == Parse(e.a, x.q)
               c == Cmp(x.t, y.t)
           IN IF e.op = "cmp" THEN Ok(Order(c) \o Order(Flip(c))) ELSE Ok(Equate(c) \o Equate(Flip(c)))
Next == i <= Len(Trace) /\ i' = i + 1 /\ Match(Trace[i], Want(Trace[i]))
=============================================================================
