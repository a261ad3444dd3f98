------------------------------ MODULE FuncDefs ------------------------------
(* Function references, deferred actions and interface pointers as a state   *)
(* machine. Slots 0 and 1 hold mutable references to functions, 2 and 3 hold *)
(* constant ones; <<0, 0>> is null, otherwise <<kind of callable, argument>>. *)
(* A deferred action is <<kind, target, armed>>; kind 0 is none.              *)
EXTENDS Integers, Sequences
FuncStart == [cell |-> <<0, 0>>, own |-> <<0, 0>>, slot |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>,
              d |-> <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, n |-> <<0, 0, 0>>,
              obj |-> <<1, 2, 3>>, at |-> 0, box |-> <<<<0, 0>>, <<0, 0>>>>]
FOut(k, v, st) == [k |-> k, v |-> v, st |-> st]
\* What slot s answers to x.
RECURSIVE Ask(_, _, _)
Ask(st, s, x) ==
  LET b == st.slot[s + 1] k == b[1] c == b[2] + 1
      In(w) == [st EXCEPT !.cell[c] = w]
  IN CASE k = 1 -> FOut("ok", <<st.cell[c] + x>>, In(st.cell[c] + x))
       [] k = 2 -> FOut("ok", <<st.own[c] + x>>, [st EXCEPT !.own[c] = st.own[c] + x])
       [] k = 3 -> FOut("ok", <<3 * x + 1>>, st)
       [] k = 4 -> FOut("ok", <<5 * x - 2>>, st)
       [] k = 5 -> FOut("ok", <<st.cell[c] + 1>>, In(st.cell[c] + 1))
       [] k = 6 -> Ask(st, b[2], x)
       [] k = 7 -> FOut("ok", <<(IF s < 2 THEN 8000 ELSE 7000) + x>>, st)
       [] k = 8 -> FOut("ok", <<7000 + x>>, st)
       [] k \in {9, 10} -> FOut("ok", <<x + 43>>, st)
       [] k = 11 -> IF s < 2 THEN FOut("ok", <<st.cell[c] + x>>, In(st.cell[c] + x))
                    ELSE FOut("ok", <<st.cell[c] + x>>, st)
\* Whether asking slot s ends in a function.
RECURSIVE Bound(_, _)
Bound(st, s) == LET b == st.slot[s + 1] IN b[1] # 0 /\ (b[1] # 6 \/ Bound(st, b[2]))
\* Running action j: the state after, with the actions run appended to v.
RECURSIVE Run(_, _)
Run(o, j) ==
  LET a == o.st.d[j + 1]
  IN IF a[1] = 0 \/ a[3] = 0 THEN o
     ELSE LET st1 == [o.st EXCEPT !.d[j + 1][3] = 0, !.n[j + 1] = @ + IF a[1] = 2 THEN 1 ELSE 0]
              o1 == FOut("ok", Append(o.v, j + IF a[1] = 2 THEN 100 * o.st.n[j + 1] ELSE 0), st1)
          IN CASE a[1] = 3 -> Run(o1, j)
               [] a[1] = 6 -> Run(o1, a[2])
               [] a[1] = 7 -> FOut("ok", o1.v, [st1 EXCEPT !.d[a[2] + 1][3] = 0])
               [] OTHER -> o1
\* A method of the interface, on an object <<type, value>>: what it returns,
\* and the value after.
Method(t, v, m, x) ==
  LET get == CASE t = 1 -> -v [] t = 2 -> 2 * v [] t = 3 -> v + 1
  IN CASE m = 0 -> <<<<get>>, v>>
       [] m = 1 -> <<<<>>, x>>
       [] m = 2 -> <<<<>>, IF t = 3 THEN -v ELSE 0>>
       [] m = 3 -> <<<<IF t = 3 THEN 1 ELSE get + x + (x + 1) * 10 + (x + 2) * 100>>, v>>
       [] m = 4 -> LET w == IF t = 3 THEN v - 1 ELSE v + 1 IN <<<<w>>, w>>
       [] m = 5 -> <<<<v>>, x>>
       [] m = 6 -> (CASE t = 1 -> <<<<-(x + 1)>>, x + 1>>
                     [] t = 2 -> <<<<2 * (x + 1)>>, x + 1>>
                     [] t = 3 -> <<<<x - 1>>, x - 1>>)
       [] m = 7 -> <<<<v>>, v>>
ZapMethod(t, v, m, x) ==
  IF m = 0 THEN <<<<>>, CASE t = 1 -> 1 - x [] t = 2 -> (-v) - x [] t = 3 -> x>>
  ELSE <<<<IF t = 3 THEN 2 * v ELSE 777>>, v>>
Through(st, r, g, m, x) ==
  IF r \in {7, 8, 9}
  THEN LET b == st.box[g + 1] w == Method(b[1], b[2], m, x)
       IN FOut("ok", w[1], [st EXCEPT !.box[g + 1] = <<b[1], w[2]>>])
  ELSE LET t == IF r \in {1, 2} THEN g ELSE st.at
           w == IF r \in {10, 11} THEN ZapMethod(t, st.obj[t], m, x) ELSE Method(t, st.obj[t], m, x)
       IN FOut("ok", w[1], [st EXCEPT !.obj[t] = w[2]])
FApply(st, o, a) ==
  LET j == a[1] + 1
  IN CASE o = "bind" -> FOut("ok", <<>>, [st EXCEPT !.slot[j] = <<a[2], a[3]>>])
       [] o = "same" -> FOut("ok", <<>>, [st EXCEPT !.slot[j] = st.slot[a[2] + 1]])
       [] o = "null" -> FOut("ok", <<>>, [st EXCEPT !.slot[j] = <<0, 0>>])
       [] o = "isnull" -> FOut("ok", IF st.slot[j][1] = 0 THEN <<1, 0>> ELSE <<0, 1>>, st)
       [] o = "ask" -> Ask(st, a[1], a[2])
       [] o = "dopen" -> FOut("ok", <<>>, [st EXCEPT !.d[j] = <<a[2], a[3], 1>>, !.n[j] = 0])
       [] o = "drun" -> LET r == Run(FOut("ok", <<>>, st), a[1])
                        IN IF st.d[j][1] = 8 /\ st.d[j][3] = 1 THEN FOut("ok", <<88>> \o r.v, r.st) ELSE r
       [] o = "dcancel" -> FOut("ok", <<>>, [st EXCEPT !.d[j][3] = 0])
       [] o = "dclose" -> LET r == Run(FOut("ok", <<>>, st), a[1])
                          IN FOut("ok", r.v, [r.st EXCEPT !.d[j] = <<0, 0, 0>>])
       [] o = "point" -> FOut("ok", <<>>, [st EXCEPT !.at = a[1]])
       [] o = "box" -> FOut("ok", <<>>, [st EXCEPT !.box[j] = <<a[2], a[3]>>])
       [] o = "copybox" -> LET b == st.box[a[2] + 1]
                           IN IF b[1] = 3 THEN FOut("ok", <<0>>, st) ELSE FOut("ok", <<1>>, [st EXCEPT !.box[j] = b])
       [] o = "do" -> Through(st, a[1], a[2], a[3], a[4])
=============================================================================
