------------------------------ MODULE BoundsMC ------------------------------
(* Range arithmetic on a machine word. The algorithm that normalises a range *)
(* to a count works modulo W; checked here, for every range and every        *)
(* enclosing size over a small word, against exact arithmetic.               *)
EXTENDS Integers
CONSTANTS W, Careful
VARIABLES start, e, i, k, max
Word == 0..(W - 1)
No == -1
Opt == Word \union {No}
Init == start \in Word /\ e \in Opt /\ i \in Opt /\ k \in Opt /\ max \in Opt
Next == FALSE /\ UNCHANGED <<start, e, i, k, max>>

(* Exact definition: the range designates [start, stop) if that lies inside. *)
Bounded == e # No \/ i # No \/ k # No
Stop == IF e # No THEN e ELSE IF i # No THEN i + 1 ELSE IF k # No THEN start + k ELSE max
Fine == (max # No \/ Bounded) /\ start <= Stop /\ (max # No => Stop <= max) /\ Stop < W + start
Want == IF Fine THEN Stop - start ELSE No

(* Algorithm.                                                                *)
Wrap(x) == x % W
Normal == IF max # No /\ start > max THEN No
          ELSE IF e # No THEN IF start > e THEN No ELSE e - start
          ELSE IF i # No THEN IF start > i + 1 THEN No ELSE Wrap(i - start + 1)
          ELSE IF k # No THEN IF k # 0 /\ start + (k - 1) >= W THEN No ELSE k
          ELSE Wrap(max - start)
Got == IF max = No /\ ~Bounded THEN No
       ELSE IF max = No THEN Normal
       ELSE IF Careful /\ e = No /\ i = W - 1 THEN No
       ELSE IF Normal = No \/ start + Normal >= W \/ start + Normal > max THEN No
       ELSE Normal
\* Counts of exactly W or stops of exactly W do not fit a word.
Representable == max = No => Stop < W
Exact == Representable => Got = Want
=============================================================================
