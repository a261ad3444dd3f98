------------------------------ MODULE VecDefs ------------------------------
(* Vectors as sequences. A world is a sequence of registers, each of which   *)
(* is off or holds a sequence and the number of the allocator it uses. Apply *)
(* gives the outcome of an operation: what kind, what is returned and the    *)
(* world after. A crash ends the history.                                    *)
EXTENDS Integers, Sequences
Off == [on |-> 0, s |-> <<>>, al |-> 0]
On(s, al) == [on |-> 1, s |-> s, al |-> al]
MinN(x, y) == IF x < y THEN x ELSE y
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* Before the element numbered k (from 0), put t.
SpliceAt(s, k, t) == Take(s, k) \o t \o Drop(s, k)
EraseAt(s, k, n) == Take(s, k) \o Drop(s, k + n)
RECURSIVE LexCmp(_, _)
LexCmp(s, t) == IF s = t THEN 0
                ELSE IF s = <<>> THEN -1 ELSE IF t = <<>> THEN 1
                ELSE IF s[1] < t[1] THEN -1 ELSE IF s[1] > t[1] THEN 1
                ELSE LexCmp(Tail(s), Tail(t))
B(p) == IF p THEN 1 ELSE 0
\* From position p of the arguments, a length and that many values.
ListAt(a, p) == SubSeq(a, p + 1, p + a[p])
Apply(w, op, a) ==
  LET r == a[1] + 1
      x == w[r]
      s == x.s
      n == Len(s)
      q == a[2] + 1
      y == w[q]
      Set(v) == [w EXCEPT ![r] = [@ EXCEPT !.s = v]]
      Out(k, v, u) == [k |-> k, v |-> v, w |-> u]
      Crash == Out("crash", <<>>, w)
      Done(u) == Out("ok", <<>>, u)
      Elem(k) == IF 0 <= k /\ k < n THEN Out("ok", <<s[k + 1]>>, w) ELSE Out("none", <<>>, w)
      Moved == [w EXCEPT ![r] = y, ![q] = [@ EXCEPT !.s = <<>>]]
  IN CASE op = "new" -> Done([w EXCEPT ![r] = On(<<>>, a[2])])
       [] op = "drop" -> Done([w EXCEPT ![r] = Off])
       [] op \in {"from", "iter"} -> Done([w EXCEPT ![r] = On(ListAt(a, 3), a[2])])
       [] op = "il" -> Done([w EXCEPT ![r] = On(<<a[3], a[4], a[5]>>, a[2])])
       [] op = "copyn" -> Done([w EXCEPT ![r] = y])
       [] op = "moven" -> Done(Moved)
       [] op = "copya" -> Done(Set(y.s))
       [] op = "movea" -> Done(IF r = q THEN w ELSE Moved)
       [] op = "assignv" -> Done(Set(y.s))
       [] op = "assign" -> Done(Set(ListAt(a, 2)))
       [] op = "assignw" -> Done(Set(ListAt(a, 3)))
       [] op = "appendw" -> Done(Set(s \o ListAt(a, 3)))
       [] op = "fromw" -> Done([w EXCEPT ![r] = On(ListAt(a, 4), a[2])])
       [] op = "push" -> Out("ok", <<a[2]>>, Set(Append(s, a[2])))
       [] op = "insert" -> IF a[2] > n THEN Crash ELSE Out("ok", <<a[3]>>, Set(SpliceAt(s, a[2], <<a[3]>>)))
       [] op \in {"splice", "gap"} -> IF a[2] > n THEN Crash ELSE Done(Set(SpliceAt(s, a[2], ListAt(a, 3))))
       [] op = "append" -> Done(Set(s \o ListAt(a, 2)))
       [] op = "appendv" -> Done(Set(s \o y.s))
       [] op = "splicein" ->
            IF a[2] > n \/ a[3] + a[4] > n THEN Crash
            ELSE Done(Set(SpliceAt(s, a[2], SubSeq(s, a[3] + 1, a[3] + a[4]))))
       [] op = "pop" -> IF n = 0 THEN Out("none", <<>>, w) ELSE Out("ok", <<s[n]>>, Set(Take(s, n - 1)))
       [] op = "remove" -> IF a[2] >= n THEN Crash ELSE Out("ok", <<s[a[2] + 1]>>, Set(EraseAt(s, a[2], 1)))
       [] op = "erase" ->
            IF a[4] = 3 THEN IF a[2] > n THEN Crash ELSE Done(Set(Take(s, a[2])))
            ELSE IF a[2] + a[3] > n THEN Crash ELSE Done(Set(EraseAt(s, a[2], a[3])))
       [] op \in {"trunc", "resize"} -> Done(Set(Take(s, MinN(a[2], n))))
       [] op = "clear" -> Done(Set(<<>>))
       [] op \in {"reserve", "shrink", "spill"} -> Done(w)
       \* Through a box and back: what is left behind is empty.
       [] op = "box" -> Out("ok", <<n, 0>>, w)
       [] op = "get" -> IF a[2] >= n THEN Crash ELSE Elem(a[2])
       [] op = "at" -> Elem(a[2])
       [] op = "first" -> Elem(0)
       [] op = "last" -> Elem(n - 1)
       [] op = "cmp" -> Out("ok", <<B(s = y.s), B(s # y.s), LexCmp(s, y.s)>>, w)
=============================================================================
