------------------------------ MODULE SumTrace ------------------------------
(* Recorded histories of optionals, results and choices.                     *)
EXTENDS StateTrace, SumDefs
Fac == atoi(IOEnv.FAC)
\* The kinds of the alternatives, one digit each.
RECURSIVE Digits(_)
Digits(x) == IF x = 0 THEN <<>> ELSE Digits(x \div 10) \o <<x % 10>>
SumShape == Tail(Digits(atoi(IOEnv.SHAPE)))
Start == [u |-> [r |-> <<SOff, SOff, SOff>>, c |-> <<0, 0>>], ids |-> <<<<>>, <<>>, <<>>>>]
\* What a held object is worth, and that it stays the same object as long as
\* nothing gives its register a new value.
Judge(st0, ev) ==
  LET a == ev.a
      o == SumApply(Fac, SumShape, st0.u, ev.op, a)
      q == a[2] + 1
      r == a[1] + 1
      kept(j) == o.st.r[j] = st0.u.r[j] \/ (ev.op = "set" /\ j = r)
      free == CASE ev.op \in {"new", "put", "copyn", "copya", "conv", "ptr", "cell"} -> {r}
                [] ev.op \in {"moven", "movea", "swap"} -> {r, q}
                [] OTHER -> {}
      tracked(s) == s.on = 1 /\ SumShape[s.w + 1] \in {Obj, Fixed, Mover, Boxed}
      ok == /\ ev.k = o.k
            /\ (o.k = "ok" =>
                  /\ ev.v = o.v
                  /\ ev.s.cells = o.st.c
                  /\ \A j \in 1..3 :
                       LET s == o.st.r[j]
                           g == ev.s.r[j]
                       IN /\ g.on = s.on /\ g.w = s.w /\ g.x = s.x
                          /\ (s.on = 1 => g.n = Bit(tracked(s)) /\ (tracked(s) => g.val = <<s.x>>))
                          /\ (j \notin free /\ kept(j) /\ s.on = 1 => g.id = st0.ids[j]))
  IN [ok |-> ok, want |-> <<o.k, o.v, o.st>>,
      st |-> [u |-> o.st, ids |-> IF ok /\ o.k = "ok" THEN [j \in 1..3 |-> ev.s.r[j].id] ELSE st0.ids]]
Init == Begin(Start)
Next == Walk(Start, Judge)
=============================================================================
