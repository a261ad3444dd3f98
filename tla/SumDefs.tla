------------------------------ MODULE SumDefs ------------------------------
(* Optionals, results and choices: sums of alternatives, of which one is     *)
(* held. A register is off (0), holds alternative w with value x (1), or has *)
(* been moved from (2) and may only be given a new value or dropped. Shape   *)
(* lists the alternatives' kinds. References are to cells, which outlive     *)
(* everything; their value is which cell they refer to.                      *)
EXTENDS Integers, Sequences
Void == 0     \* no value
Obj == 1      \* an object that can be assigned
Fixed == 2    \* an object that cannot
Mover == 3    \* an object that cannot be copied
Num == 4      \* a number
Ref == 5      \* a reference to a cell
Boxed == 6    \* an object that is owned elsewhere
SOff == [on |-> 0, w |-> -1, x |-> -1]
SGone == [on |-> 2, w |-> -1, x |-> -1]
SHold(shape, w, v) == [on |-> 1, w |-> w, x |-> IF shape[w + 1] = Void THEN 0 ELSE v]
Bit(b) == IF b THEN 1 ELSE 0
Rep(t, n) == [j \in 1..(n * Len(t)) |-> t[((j - 1) % Len(t)) + 1]]
\* State: [r: registers, c: cells].
Changes(shape, u, op, a) ==
  LET r == a[1] + 1
      q == a[2] + 1
      Put(s) == [u EXCEPT !.r[r] = s]
      Took == [u EXCEPT !.r[r] = IF r = q THEN SGone ELSE u.r[q], !.r[q] = SGone]
  IN CASE op \in {"new", "put"} -> Put(SHold(shape, a[2], a[3]))
       [] op = "drop" -> Put(SOff)
       [] op \in {"moven", "movea"} -> Took
       [] op = "swap" -> [u EXCEPT !.r[r] = u.r[q], !.r[q] = u.r[r]]
       [] op \in {"copyn", "copya"} -> Put(u.r[q])
       [] op = "set" ->
            LET k == shape[u.r[r].w + 1]
            IN IF k = Ref THEN [u EXCEPT !.c[u.r[r].x + 1] = a[2]]
               ELSE IF k \in {Void, Fixed} THEN u ELSE [u EXCEPT !.r[r].x = a[2]]
       [] op = "cell" -> [u EXCEPT !.c[a[2] + 1] = a[3]]
       [] OTHER -> u
Steps == {"new", "put", "drop", "moven", "movea", "swap", "copyn", "copya", "set", "cell"}
Copyable(shape) == \A k \in 1..Len(shape) : shape[k] # Mover

\* Questions, which change nothing unless they move the value out.
Choice(shape, u, op, a) ==
  LET r == a[1] + 1
      s == u.r[r]
      Out(v) == [k |-> "ok", v |-> v, st |-> u]
      Moved(v) == [k |-> "ok", v |-> v, st |-> [u EXCEPT !.r[r] = SGone]]
      n == Len(shape)
  IN CASE op = "at" ->
            LET h == Bit(a[2] = s.w)
            IN Out(Rep(<<h, h * s.x>>, 4) \o Rep(<<h>>, 4) \o <<1, 1>>)
       [] op = "idx" -> IF a[2] = s.w THEN Out(<<s.x>>) ELSE [k |-> "crash", v |-> <<>>, st |-> u]
       [] op = "match" ->
            LET args == Bit(shape[s.w + 1] # Void)
            IN Out(Rep(<<1, s.w, args, s.x, 1, 1>>, 2))
       [] op = "cases" -> Out(Rep(<<s.w, s.x>>, 2))
       [] op = "perm" ->
            LET v == <<(s.w + n - 1) % n, s.x>>
            IN IF a[2] = 3 THEN Moved(v) ELSE Out(v)

Option(shape, u, op, a) ==
  LET r == a[1] + 1
      s == u.r[r]
      has == s.w = 1
      h == Bit(has)
      x == h * s.x
      k == shape[2]
      Out(v) == [k |-> "ok", v |-> v, st |-> u]
      Give(mv, v) == [k |-> "ok", v |-> v, st |-> IF mv THEN [u EXCEPT !.r[r] = SGone] ELSE u]
      fun == IF has THEN 2 * x + 1 ELSE 0
      odd == has /\ x % 2 = 1
      q == a[2] + 1
  IN CASE op = "get" -> IF has THEN Out(<<x>>) ELSE [k |-> "crash", v |-> <<>>, st |-> u]
       [] op = "refs" -> Out(Rep(<<h, x>>, 4) \o Rep(<<h>>, 4) \o <<1>>)
       [] op = "or_value" -> Give(a[2] = 3, <<IF has THEN x ELSE a[3], Bit(~has /\ a[4] = 1)>>)
       [] op = "copy" -> Give(a[2] = 3, <<h, x>>)
       [] op = "or_emplace" ->
            [k |-> "ok", v |-> <<1>>,
             st |-> IF has THEN u ELSE [u EXCEPT !.r[r] = SHold(shape, 1, a[2])]]
       [] op = "map" -> Out(<<h, fun, h>>)
       [] op = "map_or" -> Out(<<IF has THEN fun ELSE a[3], h, Bit(~has /\ a[4] = 1)>>)
       [] op = "then" -> Out(<<Bit(has /\ ~odd), IF has /\ ~odd THEN x + 7 ELSE 0, h>>)
       [] op = "has" -> Out(<<Bit(odd), h>>)
       [] op = "inspect" -> Out(<<1, h, x>>)
       [] op = "filter" -> Give(a[2] = 1, <<Bit(odd), IF odd THEN x ELSE 0, h>>)
       [] op \in {"and", "or", "xor"} ->
            LET t == u.r[q]
                th == t.w = 1
                pick == CASE op = "and" -> IF has THEN t ELSE s
                          [] op = "or" -> IF has THEN s ELSE t
                          [] OTHER -> IF has = th THEN SHold(shape, 0, 0) ELSE IF has THEN s ELSE t
            IN [k |-> "ok", v |-> <<Bit(pick.w = 1), IF pick.w = 1 THEN pick.x ELSE 0>>,
                st |-> IF a[3] = 1 THEN [u EXCEPT !.r[r] = SGone, !.r[q] = SGone] ELSE u]
       [] op \in {"ok_or", "err_or"} ->
            LET side == IF op = "ok_or" THEN 0 ELSE 1
            IN Give(a[2] = 3, <<IF has THEN side ELSE 1 - side, IF has THEN x ELSE a[4],
                                Bit(~has /\ a[3] = 2)>>)
       [] op = "ptr" ->
            [k |-> "ok", v |-> <<1>>,
             st |-> [u EXCEPT !.r[r] = IF a[2] < 0 THEN SHold(shape, 0, 0) ELSE SHold(shape, 1, a[2])]]
       [] op = "conv" ->
            [k |-> "ok", v |-> <<>>,
             st |-> [u EXCEPT !.r[r] = IF a[2] = 1 THEN SHold(shape, 1, a[3]) ELSE SHold(shape, 0, 0)]]

Result(shape, u, op, a) ==
  LET r == a[1] + 1
      s == u.r[r]
      ok == s.w = 0
      o == Bit(ok)
      Give(mv, v) == [k |-> "ok", v |-> v, st |-> IF mv THEN [u EXCEPT !.r[r] = SGone] ELSE u]
      fun == 2 * s.x + 1
  IN CASE op = "sides" -> Give(FALSE, Rep(<<o, o * s.x, 1 - o, (1 - o) * s.x>>, 4))
       [] op = "get" -> IF ok THEN Give(FALSE, <<s.x>>) ELSE [k |-> "crash", v |-> <<>>, st |-> u]
       [] op \in {"map", "then"} -> Give(a[2] = 3, <<s.w, IF ok THEN fun ELSE s.x, o>>)
       [] op = "map_err" -> Give(a[2] = 3, <<s.w, IF ok THEN s.x ELSE fun, 1 - o>>)
       [] op = "conv" ->
            [k |-> "ok", v |-> <<>>, st |-> [u EXCEPT !.r[r] = SHold(shape, a[2], a[3])]]

SumApply(fac, shape, u, op, a) ==
  IF op \in Steps
    THEN [k |-> "ok", v |-> IF op = "put" THEN <<1>> ELSE <<>>, st |-> Changes(shape, u, op, a)]
    ELSE CASE fac = 0 -> Choice(shape, u, op, a)
           [] fac = 1 -> Option(shape, u, op, a)
           [] OTHER -> Result(shape, u, op, a)
=============================================================================
