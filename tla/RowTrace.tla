------------------------------ MODULE RowTrace ------------------------------
(* Recorded rearrangements of rows and type lists. An element is <<type,     *)
(* value, how>>: how is 1 if it was copied, 2 if it was moved, 0 if it is    *)
(* the original, or refers to it.                                            *)
EXTENDS FnTrace, RowDefs
\* Types: 1..5 values, 8 void, +10 const &, +20 &, +30 const &&, +40 &&.
IsRef(w) == w >= 10 /\ w < 100
IsVal(w) == w < 8
\* The type of a reference to an element of type w, in a row seen as q.
Access(w, q) == IF ~IsVal(w) THEN w ELSE w + CASE q = 0 -> 10 [] q = 1 -> 20 [] q = 2 -> 30 [] q = 3 -> 40
B01(x) == IF x THEN 1 ELSE 0
\* Element j of a row of types s, with values from base, made into a w by way
\* of the row seen as q.
Made(s, j, base, q, w) ==
  IF s[j] = 8 THEN <<w, 0, 0>>
  ELSE <<w, base + j - 1, IF ~IsVal(w) THEN 0 ELSE IF Access(s[j], q) >= 40 THEN 2 ELSE 1>>
All(s, base, q, ws) == [j \in 1..Len(s) |-> Made(s, j, base, q, ws[j])]
Taken(s, base, q) == All(s, base, q, s)
Refs(s, base, q) == All(s, base, q, [j \in 1..Len(s) |-> Access(s[j], q)])
RECURSIVE Flat(_)
Flat(es) == IF es = <<>> THEN <<>> ELSE Head(es) \o Flat(Tail(es))
Show(es) == <<Len(es)>> \o Flat(es)
Each(es) == Flat([j \in 1..Len(es) |-> <<1>> \o es[j]])
\* What an element type is found by.
Found(w, k) == w = k \/ (w = 3 /\ k = 9) \/ (w = 4 /\ k = 2)
Marks(s, k) == [j \in 1..Len(s) |-> B01(Found(s[j], k))]
\* A value 90 of type t, passed as lv (const lvalue, lvalue, rvalue), as a w.
Pushed(lv, w) == <<w, 90, IF IsVal(w) THEN (IF lv = 2 THEN 2 ELSE 1) ELSE 0>>
Bound(t, lv) == t + CASE lv = 0 -> 10 [] lv = 1 -> 20 [] lv = 2 -> 40
Sub(a, p, n) == SubSeq(a, p, p + n - 1)

RowWant(op, a) ==
  LET q == a[1]
      n == a[2]
      s == Sub(a, 3, n)
      p == 3 + n
      x == Taken(s, 10, q)
      refs == Refs(s, 10, q)
      bind(w) == IF op \in {"push_bind", "insert_bind", "update_bind"} THEN Bound(a[p + 1], a[p + 2]) ELSE w
      one == Pushed(a[p + 2], bind(a[p + 3]))
      \* A second row, at o: its qualifier, size, types.
      second(o) == Sub(a, o + 2, a[o + 1])
      it(o, ws) == All(second(o), 50, a[o], ws)
  IN CASE op \in {"at", "get"} -> refs[a[p] + 1]
       [] op = "first" -> IF n = 0 THEN <<8, 0, 0>> ELSE refs[1]
       [] op = "second" -> refs[2]
       [] op = "last" -> refs[n]
       [] op = "range" -> Show(RCut(x, Sub(a, p, 3)))
       [] op = "erase" -> Show(RErase(x, Sub(a, p, 3)))
       [] op = "as_ref" -> Show(refs)
       [] op = "as_args" -> Show(refs)
       [] op = "copy" -> Show(x)
       [] op = "select" -> Show(RGather(x, RSelect(Marks(s, a[p]), 1, 1)))
       [] op = "select_indices" -> LET ks == RSelect(Marks(s, a[p]), 1, 1)
                                   IN <<Len(ks)>> \o [j \in 1..Len(ks) |-> 100 + ks[j]]
       [] op = "selectable" -> <<B01(\E j \in 1..n : Found(s[j], a[p]))>>
       [] op \in {"join", "plus"} -> Show(x \o (IF a[p] = 2 THEN x ELSE <<>>) \o it(p + 1, second(p + 1)))
       [] op \in {"push", "push_bind", "push_types", "insert", "insert_bind", "insert_types"} ->
            Show(RInsert(x, a[p], one))
       [] op \in {"update", "update_bind", "update_types"} -> Show(RUpdate(x, a[p], one))
       [] op \in {"splice", "splice_types"} ->
            LET m == a[p + 4] IN Show(RSplice(x, Sub(a, p, 3), it(p + 3, Sub(a, p + 5 + m, m))))
       [] op = "remove" -> Show(RRemove(x, a[p]))
       [] op = "gather" -> Show(RGather(x, Sub(a, p + 1, a[p])))
       [] op \in {"scatter", "scatter_types"} ->
            LET k == a[p]
                o == p + 1 + k
                m == a[o + 1]
            IN Show(RScatter(x, Sub(a, p + 1, k), it(o, Sub(a, o + 2 + m, m))))
       [] op = "apply" -> Show(refs) \o <<7>>
       [] op = "each" -> Each(refs)
       [] op = "unpack" -> Flat([j \in 1..n |-> <<IF IsVal(s[j]) /\ q \in {0, 2} THEN 50 + s[j] ELSE s[j], 9 + j, 0>>])
       [] op = "make" -> Show([j \in 1..n |-> <<s[j], 9 + j, IF a[p + j - 1] = 2 THEN 2 ELSE 1>>])
       [] op = "bind" -> Show([j \in 1..n |-> <<Bound(s[j], a[p + j - 1]), 9 + j, 0>>])
\* What is left behind is as it was, unless it was given away.
Intact(op, a) == IF op \in {"select_indices", "selectable", "make", "bind"} \/ a[1] = 3 THEN <<>> ELSE <<1>>

List(s) == <<Len(s)>> \o s
ListWant(op, a) ==
  LET n == a[1]
      s == Sub(a, 2, n)
      p == 2 + n
      b == Sub(a, p, 3)
      out == <<1, 9>>
      hits == RSelect(s, a[p], 1)
      t == Sub(a, p + 1, a[p])
  IN CASE op = "tat" -> IF RIn(b, n) THEN List(RCut(s, b)) ELSE out
       [] op = "tnth" -> <<IF a[p] < n THEN s[a[p] + 1] ELSE 9>>
       [] op = "tjoin" -> List(s \o t \o Sub(a, p + 2 + a[p], a[p + 1 + a[p]]))
       [] op = "tpush" -> List(Append(s, a[p]))
       [] op = "tinsert" -> IF a[p] <= n THEN List(RInsert(s, a[p], a[p + 1])) ELSE out
       [] op = "tupdate" -> List(IF a[p] < n THEN RUpdate(s, a[p], a[p + 1]) ELSE s)
       [] op = "tsplice" -> IF RIn(b, n) THEN List(RSplice(s, b, Sub(a, p + 4, a[p + 3]))) ELSE out
       [] op = "tremove" -> IF a[p] < n THEN List(RRemove(s, a[p])) ELSE out
       [] op = "terase" -> IF RIn(b, n) THEN List(RErase(s, b)) ELSE out
       [] op = "tgather" -> List([j \in 1..Len(t) |-> IF t[j] < n THEN s[t[j] + 1] ELSE 9])
       [] op = "tscatter" -> List(RScatter(s, t, Sub(a, p + 1 + a[p], a[p])))
       [] op = "ttrim_prefix" -> IF RPrefix(t, s) THEN List(SubSeq(s, Len(t) + 1, n)) ELSE out
       [] op = "ttrim_suffix" -> IF RSuffix(t, s) THEN List(SubSeq(s, 1, n - Len(t))) ELSE out
       [] op = "tfind" -> <<IF hits = <<>> THEN -1 ELSE hits[1]>>
       [] op = "tfind_unique" -> <<IF Len(hits) = 1 THEN hits[1] ELSE -1>>
       [] op = "tunique" -> <<B01(RUnique(s))>>
       [] op = "tcmp" -> <<B01(s = t), B01(RPrefix(s, t) /\ s # t), B01(RPrefix(t, s) /\ s # t),
                           B01(RPrefix(s, t)), B01(s # t)>>
ListOps == {"tat", "tnth", "tjoin", "tpush", "tinsert", "tupdate", "tsplice", "tremove", "terase", "tgather",
            "tscatter", "ttrim_prefix", "ttrim_suffix", "tfind", "tfind_unique", "tunique", "tcmp"}
Judged(e) ==
  LET a == Tail(e.a)
  IN Match(e, Ok(IF e.op \in ListOps THEN ListWant(e.op, a) ELSE RowWant(e.op, a) \o Intact(e.op, a)))
Next == i <= Len(Trace) /\ Judged(Trace[i]) /\ i' = i + 1
=============================================================================
