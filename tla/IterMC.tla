------------------------------- MODULE IterMC -------------------------------
(* Every machine of up to MaxLayers adaptors over short sources, and every   *)
(* interleaving of calls on it: what has come from the front, what is still  *)
(* to come and what has come from the back always make up the sequence the   *)
(* adaptors are defined to give.                                             *)
EXTENDS IterDefs, TLC, Json
CONSTANTS MaxLayers, Lens, Emit, Mutant
VARIABLES m, whole, got, back, made
Layers == {<<Map, 0>>, <<Inspect, 0>>, <<Watch, 0>>, <<Enumerate, 0>>, <<Take, 2>>, <<Rev, 0>>}
Stacks == UNION {[1..n -> Layers] : n \in 0..MaxLayers}
Machines == {x \in {[src |-> [j \in 1..n |-> j + 4], layers |-> s, both |-> TRUE] : n \in Lens, s \in Stacks} :
               \A k \in 1..Len(x.layers) : x.layers[k][1] = Rev => Ended(x, k - 1)}
Init == /\ m \in Machines
        /\ whole = Means(m) /\ got = <<>> /\ back = <<>> /\ made = m
Put(t, it) == IF it = NoItem THEN t ELSE Append(t, it)
Say(op) == IF Emit THEN PrintT(<<"EDGE", ToJson(<<made, op>>)>>) ELSE TRUE
Take1 == LET r == Front(m) IN m' = r.m /\ got' = Put(got, r.it) /\ UNCHANGED <<whole, back, made>>
Back1 == LET r == IF Mutant /\ Len(m.src) = 1 THEN Front(m) ELSE Back(m)
         IN m' = (IF Mutant /\ Len(m.src) = 2 THEN m ELSE r.m) /\ back' = Put(back, r.it) /\ UNCHANGED <<whole, got, made>>
Next == Take1 \/ (DoubleEnded(m) /\ Back1)
Rest == All(m).items
Pieces == (got \o Rest) \o Reversed(back) = whole
Same == Means(m) = Rest
\* Exhausted machines stay exhausted.
Stays == Rest = <<>> => Front(m).it = NoItem /\ (DoubleEnded(m) => Back(m).it = NoItem)
Constraint == Len(back) <= 5
=============================================================================
