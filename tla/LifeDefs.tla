------------------------------ MODULE LifeDefs ------------------------------
(* The life of elements. Every object an element type constructs has an      *)
(* identity that is never used again; a log is a flat sequence of triples    *)
(* <<what, identity, value or source>> in the order things happened. A       *)
(* world maps the identities of the objects alive to their values. Replay    *)
(* gives the world after a log, or reports the first event that no world     *)
(* allows: use of something that is not alive, a second destruction, ...     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
New == 1 CopyNew == 2 MoveNew == 3 CopySet == 4 MoveSet == 5 Delete == 6 Change == 8
Moved == -5
World0 == [ok |-> TRUE, at |-> 0, obj |-> <<>>, last |-> 0]
Alive(w) == DOMAIN w.obj
Bad(w, p) == [w EXCEPT !.ok = FALSE, !.at = p]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
LifeStep(w, p, what, id, x) ==
  CASE what \in {New, CopyNew, MoveNew} /\ ~(id > w.last) -> Bad(w, p)
    [] what = New -> [w EXCEPT !.obj = (id :> x) @@ @, !.last = id]
    [] what = CopyNew -> IF x \in Alive(w)
                         THEN [w EXCEPT !.obj = (id :> w.obj[x]) @@ @, !.last = id] ELSE Bad(w, p)
    [] what = MoveNew -> IF x \in Alive(w)
                         THEN [w EXCEPT !.obj = (id :> w.obj[x]) @@ (x :> Moved) @@ @, !.last = id] ELSE Bad(w, p)
    [] what = CopySet -> IF {x, id} \subseteq Alive(w)
                         THEN [w EXCEPT !.obj = (id :> w.obj[x]) @@ @] ELSE Bad(w, p)
    [] what = MoveSet -> IF {x, id} \subseteq Alive(w)
                         THEN [w EXCEPT !.obj = IF x = id THEN @ ELSE (id :> w.obj[x]) @@ (x :> Moved) @@ @]
                         ELSE Bad(w, p)
    [] what = Delete -> IF id \in Alive(w) /\ x = 0 THEN [w EXCEPT !.obj = Without(@, id)] ELSE Bad(w, p)
    [] what = Change -> IF id \in Alive(w) THEN [w EXCEPT !.obj = (id :> x) @@ @] ELSE Bad(w, p)
    [] OTHER -> Bad(w, p)
RECURSIVE Replay(_, _, _)
Replay(w, log, p) == IF p > Len(log) \/ ~w.ok THEN w
                     ELSE Replay(LifeStep(w, p, log[p], log[p + 1], log[p + 2]), log, p + 3)
=============================================================================
