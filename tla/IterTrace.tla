------------------------------ MODULE IterTrace ------------------------------
(* Recorded calls on iterators. "make" holds the source and the adaptors.     *)
EXTENDS StateTrace, IterDefs
Kind == atoi(IOEnv.SRC)
Lo == CASE Kind = 0 -> 0 [] Kind = 1 -> -128 [] OTHER -> 0
Hi == CASE Kind = 0 -> 2000000000 [] Kind = 1 -> 127 [] OTHER -> 255
Bit(x, b) == (x \div b) % 2 = 1
UpTo(a, b) == IF b < a THEN <<>> ELSE [j \in 1..(b - a + 1) |-> a + j - 1]
\* A range of integers: the first bound that is given wins; a range whose
\* count runs past the type is empty.
Range(a) ==
  LET s == a[1] has == a[2]
  IN IF Bit(has, 1) THEN UpTo(s, a[3] - 1)
     ELSE IF Bit(has, 2) THEN UpTo(s, a[4])
     ELSE IF Bit(has, 4) THEN IF s + a[5] - 1 > Hi THEN <<>> ELSE UpTo(s, s + a[5] - 1)
     ELSE UpTo(s, Hi)
Source(a) == IF Kind < 3 THEN Range(a) ELSE SubSeq(a, 2, 1 + a[1])
AfterSource(a) == IF Kind < 3 THEN 6 ELSE 2 + a[1]
Make(a) ==
  LET p == AfterSource(a) n == a[p] \div 2
  IN [src |-> Source(a), layers |-> [k \in 1..n |-> <<a[p + 2 * k - 1], a[p + 2 * k]>>], both |-> Kind # 4]
Out(k, v, m, saw) == [k |-> k, v |-> v, m |-> m, saw |-> saw]
One(r) == IF r.it = NoItem THEN Out("none", <<>>, r.m, r.saw) ELSE Out("ok", r.it, r.m, r.saw)
Apply(m, ev) ==
  CASE ev.op = "make" -> Out("ok", <<>>, Make(ev.a), <<>>)
    [] ev.op = "next" -> One(Front(m))
    [] ev.op = "back" -> One(Back(m))
    [] ev.op \in {"for", "vec"} -> LET d == All(m) IN Out("ok", Flat(d.items), d.m, d.saw)
    [] ev.op = "few" -> LET d == Drain(m, ev.a[1], <<>>, <<>>) IN Out("ok", Flat(d.items), d.m, d.saw)
    [] ev.op = "count" -> LET d == All(m) IN Out("ok", <<Len(d.items)>>, d.m, d.saw)
    [] ev.op = "last" -> LET d == All(m) n == Len(d.items)
                         IN IF n = 0 THEN Out("none", <<>>, d.m, d.saw) ELSE Out("ok", d.items[n], d.m, d.saw)
    [] ev.op = "hint" -> Out("ok", <<Len(All(m).items)>>, m, <<>>)
Judge(m, ev) ==
  LET o == Apply(m, ev)
      v == ev.v
      ok == IF ev.op = "hint"
            THEN ev.k = "ok" /\ v[1] <= o.v[1] /\ (Len(v) = 2 => v[2] >= o.v[1]) /\ Len(v) <= 2 /\ ev.s = <<>>
            ELSE /\ ev.k = o.k /\ v = o.v
                 \* Whether counting or skipping to the end looks at every item is not said.
                 /\ ev.op \in {"make", "count", "last"} \/ ev.s = o.saw
  IN [ok |-> ok, want |-> <<o.k, o.v, o.saw>>, st |-> o.m]
Init == Begin(<<>>)
Next == Walk(<<>>, Judge)
=============================================================================
