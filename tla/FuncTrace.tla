------------------------------ MODULE FuncTrace ------------------------------
(* Recorded calls of functions, references, taps, actions and interfaces.     *)
EXTENDS StateTrace, FuncDefs
B(c) == IF c THEN 1 ELSE 0
\* How something was called (1000s), and with what (100s).
Tag(who, what, x) == 1000 * who + 100 * what + x
Tap(w, x, y) ==
  CASE w = 0 -> <<2 * x>>
    [] w \in 1..4 -> LET who == CASE w = 1 -> 1 [] w = 2 -> 2 [] w = 3 -> 3 [] w = 4 -> 4
                     IN <<Tag(who, 0, x), Tag(who, 1, x), Tag(who, 2, x)>>
    [] w = 5 -> <<Tag(1, 0, x)>>
    [] w = 6 -> [j \in 1..4 |-> 1000 + 10 * x + y]
    [] w = 7 -> [j \in 1..4 |-> 4000 + 10 * x + y]
    [] w = 8 -> <<2000 + 10 * x + y + 5 * x, 3000 + x, 2000 + 10 * x + y + 5 * x, 3000 + x>>
    [] w = 9 -> <<2 * x + 1, 2 * (x + 1), 1000 + 20 * x + y>>
    [] w = 10 -> <<y, 1>>
    [] w = 11 -> <<x, x, 1, 1, 0, 1, x, 11>>
    [] w = 12 -> <<x, x, x, 2 * x + 100>>
    [] w = 13 -> <<x + y, x + y>>
    [] w = 14 -> <<x>>
    [] w = 15 -> <<x, x + 1, x + 2, 3>>
    [] w = 16 -> <<1000 + 10 * y + x, 1000 + 10 * y + x, 4000 + 10 * y + x>>
    [] w = 17 -> <<x + y, x>>
\* The object called is X{3 + x}; others are X{3}.
Call(w, x, y) ==
  LET v == 3 + x
  IN CASE w = 0 -> [j \in 1..3 |-> 1000 + v + y]
       [] w = 1 -> <<2000 + 3 * y, 2000 + v * y>>
       [] w = 2 -> <<3000 + v - y, 3003 - y, 3003 - y, 3003 - y, 3000 + v - y>>
       [] w = 3 -> <<4000 + v + y, 4000 + v + y>>
       [] w = 4 -> <<5000 + y, 6000 + y, 6000 + y>>
       [] w = 5 -> <<y, v + y, 3, 3>>
       [] w = 6 -> <<1, 1>>
       [] w = 7 -> <<1000 + x, 4000 + x, 2200 + x>>
       [] w = 8 -> <<7000 + x, 2030 + x>>
       [] w = 9 -> <<Tag(1, 0, x), Tag(2, 0, x), Tag(3, 0, x), Tag(4, 2, x)>>
       [] w = 10 -> <<3 * x + 1, x + 43, 50 + x>>
       [] w = 11 -> <<1, 1, 3 * x + 1, 1>>
       [] w = 12 -> <<3 * x + 1, 3000 + v - y>>
       [] w = 13 -> <<7000 + x, 1000 + x>>
Sig(w, x, y) ==
  LET v == 3 + x
  IN CASE w = 0 -> <<1000 + v + y, 1000 + v + y>>
       [] w = 1 -> <<y, 1, 1>>
       [] w = 2 -> <<x - y, 1>>
       [] w = 3 -> <<2>>
       [] w = 4 -> <<x + 1>>
       [] w = 5 -> <<x + y, 1>>
       [] w = 6 -> <<x + 43>>
       [] w = 7 -> <<3 * x + 1>>
       [] w = 8 -> <<x + y>>
       [] w = 9 -> <<1>>
       [] w = 10 -> <<1, 0, 0, 1>>
       [] w = 11 -> <<Tag(1, 0, x), Tag(2, 0, x), Tag(2, 0, x), Tag(1, 2, x), Tag(1, 1, x)>>
       [] w = 12 -> <<1, 0, 0, 1>>
Binder(w, x, y) ==
  CASE w = 0 -> <<x + y, x + y, 0, 1>>
    [] w = 1 -> <<x - y>>
    [] w = 2 -> <<x + y>>
    [] w = 3 -> <<1>>
    [] w = 4 -> <<1, 0, 0, x, x>>
    [] w = 5 -> <<(-x) - y, 2 * ((-x) - y), 4, 4, 1>>
    [] w = 6 -> <<x + 1, 8, 0, 2 * x>>
    [] w = 7 -> <<x>>
Arrow(w, x, y) ==
  CASE w = 0 -> <<1, 1, 1>>
    [] w = 1 -> <<x, y + x>>
    [] w = 2 -> <<x, y>>
    [] w = 3 -> <<100 * x + y>>
    [] w = 4 -> <<1, 1, 0, 0>>
\* What the concepts say of: callable, implements, interface, const interfaces,
\* const references, results, dyn_of.
Facts == <<1, 0, 1, 0, 1, 0, 0, 1, 1, 1, 0, 1, 1, 1, 0, 0,
           1, 1, 1, 0, 0, 1, 0,
           1, 0, 0, 1,
           1, 1, 1, 1, 1, 0>>
Free(ev) ==
  LET a == ev.a
  IN CASE ev.op = "tap" -> Tap(a[1], a[2], a[3])
       [] ev.op = "call" -> Call(a[1], a[2], a[3])
       [] ev.op = "sig" -> Sig(a[1], a[2], a[3])
       [] ev.op = "bind_vt" -> Binder(a[1], a[2], a[3])
       [] ev.op = "arrow" -> Arrow(a[1], a[2], a[3])
       [] ev.op = "static" -> Facts
Judge(s, ev) ==
  IF ev.op \in {"tap", "call", "sig", "bind_vt", "arrow", "static"}
  THEN [ok |-> ev.k = "ok" /\ ev.v = Free(ev), want |-> Free(ev), st |-> s]
  ELSE LET o == FApply(s, ev.op, ev.a)
           snap == [cell |-> o.st.cell, own |-> o.st.own, obj |-> o.st.obj]
       IN [ok |-> ev.k = o.k /\ ev.v = o.v /\ ev.s = snap, want |-> <<o.k, o.v, snap>>, st |-> o.st]
Init == Begin(FuncStart)
Next == Walk(FuncStart, Judge)
=============================================================================
