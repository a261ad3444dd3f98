----------------------------- MODULE GuardDefs -----------------------------
(* Functions that return early through BEST_GUARD(). A function is a list of  *)
(* steps, each of which guards one operand: a fresh result or option, or one  *)
(* held elsewhere, given as it is, as const or to be moved from. The state is *)
(* that of a call in progress, and each transition executes one step.         *)
(* A failure is a negative number; the held ones are never failures by zero.  *)
EXTENDS Integers, Sequences
Gone == -7777                       \* what is left of an error that was moved
Fresh == 0 Lval == 1 Const == 2 Moved == 3
FreshTwice == 4 Twice == 5 Self == 6 MovedNeg == 7
Branch == 8 Nested == 9 Loop == 10 Own == 11
OfHeld == {Lval, Const, Moved, Twice, Self, MovedNeg}
\* Kinds of operand.
IntL == 0 VoidL == 1 LL == 2 IntU == 3 RefL == 4 IntRef == 5
OptInt == 10 OptL == 11 OptVoid == 12 OptRef == 13
IsOpt(src) == src >= 10
\* Kinds of step that make sense for an operand: no copies of what cannot be
\* copied, no changes to the error of an option, which has none, and no
\* temporaries for an error that is a reference.
Hows(src) == CASE IsOpt(src) -> {Fresh, Lval, Const, Moved, Branch, Nested, Loop, Own}
               [] src = IntU -> {Fresh, Moved, FreshTwice, Twice, MovedNeg, Branch, Nested, Loop, Own}
               [] src = IntRef -> {Fresh, Lval, Moved, Branch, Nested, Loop, Own}
               [] OTHER -> 0..11
Rets(src) == IF IsOpt(src) \/ src \in {IntL, VoidL, LL, RefL} THEN 0..2 ELSE 0..1
Fails(x) == x < 0
\* How a failure or a value shows.
Error(src, x) == IF src = IntRef /\ x # Gone THEN (-x) % 4 ELSE x
Value(src, x, cell) == CASE src \in {VoidL, OptVoid} -> <<1>>
                         [] src \in {RefL, OptRef} -> <<1, cell>>
                         [] OTHER -> <<1, x>>
Shown(src, x, cell) == IF ~Fails(x) THEN Value(src, x, cell)
                       ELSE IF IsOpt(src) THEN <<0>> ELSE <<0, Error(src, x)>>
\* A call in progress: what it has done, what it holds, and how it returned.
Call(held) == [n |-> 1, log |-> <<>>, held |-> held, ret |-> "running", err |-> 0, copies |-> 0]
Running(c) == c.ret = "running"
Return(c, log, e, copies) == [c EXCEPT !.log = @ \o log, !.ret = "early", !.err = e, !.copies = copies]
Pass(c, log) == [c EXCEPT !.log = @ \o log \o <<200 + c.n>>, !.n = @ + 1]
\* One step. The operand is evaluated once; if it is a failure the function
\* returns with what was made of its error, and otherwise nothing happens to it.
Guard(c, src, s) ==
  LET n == c.n
      x == IF s.how \in OfHeld THEN c.held[s.r + 1] ELSE s.x
      once == <<100 + n>>
      \* Errors of operands that are not to be moved from are copied, once.
      k == IF IsOpt(src) \/ src = IntRef THEN 0 ELSE IF s.how \in {Lval, Const, Self} THEN 1 ELSE 0
      e == CASE s.how \in {FreshTwice, Twice} -> 2 * x
             [] s.how = MovedNeg -> -x
             [] OTHER -> Error(src, x)
      left == IF s.how \in {Moved, MovedNeg} /\ ~IsOpt(src) /\ src # IntRef
              THEN [c EXCEPT !.held[s.r + 1] = Gone] ELSE c
  IN CASE s.how = Branch /\ s.r % 2 = 1 -> Pass(c, <<500 + n>>)
       [] s.how = Nested -> IF Fails(x) THEN Return(c, <<100 + n, 300 + n>>, e, 0)
                            ELSE Pass(c, <<100 + n, 300 + n, 400 + n>>)
       [] s.how = Loop -> IF Fails(x) THEN Return(c, once, e, 0) ELSE Pass(c, once \o once)
       [] s.how = Own -> Pass(c, once \o (IF Fails(x) THEN <<>> ELSE <<600 + n>>) \o Shown(src, x, 5))
       [] OTHER -> IF Fails(x) THEN Return(left, once, e, k) ELSE Pass(c, once)
Step(c, src, steps) == IF c.n > Len(steps) THEN [c EXCEPT !.ret = "end"] ELSE Guard(c, src, steps[c.n])
RECURSIVE Run(_, _, _)
Run(c, src, steps) == IF Running(c) THEN Run(Step(c, src, steps), src, steps) ELSE c
\* What the caller sees of a call that returned, for each kind of return type.
CellAfter(c, src, ret) == IF c.ret = "end" /\ IsOpt(src) /\ ret = 2 THEN c.n - 1 ELSE 5
Returned(c, src, ret) ==
  IF c.ret = "end" THEN IF ret = 1 THEN <<1>> ELSE <<1, c.n - 1>>
  ELSE IF IsOpt(src) THEN <<0>> ELSE <<0, IF ret = 2 THEN c.err + 1000 ELSE c.err>>
=============================================================================
