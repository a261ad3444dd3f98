------------------------------ MODULE IterDefs ------------------------------
(* Iterators as machines: what is left of the source, and a stack of         *)
(* adaptors with their own small state. An item is a sequence of integers.   *)
(* A step from the front or the back gives the item (or none), the machine   *)
(* after it, and what the inspecting adaptors saw.                           *)
EXTENDS Integers, Sequences
Map == 1 Inspect == 2 Watch == 3 Enumerate == 4 Take == 5 Rev == 6
RECURSIVE Sum(_)
Sum(t) == IF t = <<>> THEN 0 ELSE t[1] + Sum(Tail(t))
Mapped(t) == <<3 * Sum(t) + 1>>
NoItem == <<>>
\* Layer 0 is the source; layers[k] = <<adaptor, n>>.
Ended(m, k) == \A j \in 1..k : m.layers[j][1] \notin {Enumerate, Take}
DoubleEnded(m) == m.both /\ Ended(m, Len(m.layers))
RECURSIVE Step(_, _, _)
Step(m, k, front) ==
  IF k = 0
  THEN IF m.src = <<>> THEN [it |-> NoItem, m |-> m, saw |-> <<>>]
       ELSE LET n == Len(m.src)
            IN IF front THEN [it |-> <<m.src[1]>>, m |-> [m EXCEPT !.src = Tail(@)], saw |-> <<>>]
               ELSE [it |-> <<m.src[n]>>, m |-> [m EXCEPT !.src = SubSeq(@, 1, n - 1)], saw |-> <<>>]
  ELSE LET what == m.layers[k][1]
           n == m.layers[k][2]
       IN IF what = Take /\ n = 0 THEN [it |-> NoItem, m |-> m, saw |-> <<>>]
          ELSE LET r == Step(m, k - 1, IF what = Rev THEN ~front ELSE front)
               IN CASE what = Take -> [r EXCEPT !.m.layers[k][2] = n - 1]
                    [] r.it = NoItem -> r
                    [] what = Map -> [r EXCEPT !.it = Mapped(r.it)]
                    [] what = Inspect -> [r EXCEPT !.saw = @ \o <<-9>>]
                    [] what = Watch -> [r EXCEPT !.saw = (@ \o <<-7>>) \o r.it]
                    [] what = Enumerate -> [r EXCEPT !.it = <<n>> \o @, !.m.layers[k][2] = n + 1]
                    [] OTHER -> r
Front(m) == Step(m, Len(m.layers), TRUE)
Back(m) == Step(m, Len(m.layers), FALSE)
\* Everything still to come, from the front; at most lim items.
RECURSIVE Drain(_, _, _, _)
Drain(m, lim, items, saw) ==
  IF lim = 0 THEN [items |-> items, m |-> m, saw |-> saw]
  ELSE LET r == Front(m)
       IN IF r.it = NoItem THEN [items |-> items, m |-> r.m, saw |-> saw \o r.saw]
          ELSE Drain(r.m, lim - 1, Append(items, r.it), saw \o r.saw)
All(m) == Drain(m, 100000, <<>>, <<>>)
RECURSIVE Flat(_)
Flat(items) == IF items = <<>> THEN <<>> ELSE (<<Len(items[1])>> \o items[1]) \o Flat(Tail(items))
\* The sequences adaptors are defined to give.
Reversed(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Defined(s, layer) ==
  LET what == layer[1] n == layer[2]
  IN CASE what = Map -> [j \in 1..Len(s) |-> Mapped(s[j])]
       [] what = Enumerate -> [j \in 1..Len(s) |-> <<n + j - 1>> \o s[j]]
       [] what = Take -> SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
       [] what = Rev -> Reversed(s)
       [] OTHER -> s
RECURSIVE Stack(_, _)
Stack(s, layers) == IF layers = <<>> THEN s ELSE Stack(Defined(s, layers[1]), Tail(layers))
Means(m) == Stack([j \in 1..Len(m.src) |-> <<m.src[j]>>], m.layers)
=============================================================================
