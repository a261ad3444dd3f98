------------------------------ MODULE GuardMC ------------------------------
(* Every function of a few guards, executed step by step, against what the    *)
(* macro promises: operands are evaluated in order and once, nothing runs     *)
(* after the first failure, the function fails exactly if an operand it got   *)
(* to failed, and only an operand that was offered for moving loses its error.*)
EXTENDS GuardDefs, FiniteSets, TLC
CONSTANTS Srcs, Values, MaxSteps, MaxHeld, Eager
TwoValues == {-2, 3}
VARIABLES src, steps, held0, c
vars == <<src, steps, held0, c>>
Init == /\ src \in Srcs
        /\ held0 \in UNION {[1..h -> Values] : h \in 0..MaxHeld}
        /\ steps \in UNION {[1..n -> {s \in [how : Hows(src), r : 0..1, x : Values] :
                                       \/ s.how \in OfHeld /\ s.r < Len(held0) /\ s.x = CHOOSE x \in Values : TRUE
                                       \/ s.how = Branch
                                       \/ s.how \notin OfHeld \cup {Branch} /\ s.r = 0}] : n \in 0..MaxSteps}
        /\ c = Call(held0)
\* A guard that moves before it looks breaks the promise (negative control).
Emptied(d) == [d EXCEPT !.held[steps[c.n].r + 1] = Gone]
Next == /\ Running(c)
        /\ c' = IF Eager /\ c.n <= Len(steps) /\ steps[c.n].how = Moved
                THEN Emptied(Step(c, src, steps)) ELSE Step(c, src, steps)
        /\ UNCHANGED <<src, steps, held0>>
Subject(s) == IF s.how \in OfHeld THEN held0[s.r + 1] ELSE s.x
Skipped(s) == s.how = Branch /\ s.r % 2 = 1
Bad(s) == Fails(Subject(s)) /\ ~Skipped(s) /\ s.how # Own
First == IF \E j \in 1..Len(steps) : Bad(steps[j])
         THEN CHOOSE j \in 1..Len(steps) : Bad(steps[j]) /\ \A m \in 1..(j - 1) : ~Bad(steps[m]) ELSE 0
Times(j) == Cardinality({m \in 1..Len(c.log) : c.log[m] = 100 + j})
Passed(j) == \E m \in 1..Len(c.log) : c.log[m] = 200 + j
Laws ==
  /\ ~Running(c) => (c.ret = "early") = (First # 0)
  /\ ~Running(c) =>
       \A j \in 1..Len(steps) :
         /\ Passed(j) = (First = 0 \/ j < First)
         /\ Times(j) = IF (First # 0 /\ j > First) \/ Skipped(steps[j]) THEN 0
                       ELSE IF steps[j].how = Loop /\ j # First THEN 2 ELSE 1
  /\ \A j \in 1..Len(held0) : c.held[j] # held0[j] =>
       /\ c.ret = "early" /\ steps[First].how \in {Moved, MovedNeg} /\ steps[First].r + 1 = j
  /\ c.copies > 0 => c.ret = "early" /\ steps[First].how \in {Lval, Const, Self}
  /\ (c.ret = "early" /\ steps[First].how \in {Fresh, Lval, Const, Moved, Self, Nested, Loop, Branch} /\ src # IntRef)
       => c.err = Subject(steps[First])
=============================================================================
