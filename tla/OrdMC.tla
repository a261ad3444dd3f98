------------------------------- MODULE OrdMC -------------------------------
(* A chain evaluated link by link comes to what all its links say.           *)
EXTENDS OrdDefs, FiniteSets, TLC
CONSTANTS Links, Broken
VARIABLES o, ts, at, out, asked
Outs(t) == CASE t \in {0, 1} -> {-1, 0, 1} [] t = 2 -> {-1, 0, 1, 2} [] t = 3 -> {-1} [] t = 4 -> {0}
             [] t = 5 -> {1} [] t = 6 -> {2}
Cats == {0, 1, 2, 3, 4, 5, 6}
Init == /\ \E n \in 1..Links : ts \in [1..n -> Cats] /\ o \in [1..n -> {-1, 0, 1, 2}]
        /\ \A j \in 1..Len(ts) : o[j] \in Outs(ts[j])
        /\ at = 1 /\ out = <<Weakness(ts[1]), o[1]>> /\ asked = <<>>
\* Chaining one more comparison: it is asked for only if all is equal so far.
Next == /\ at < Len(o)
        /\ at' = at + 1
        /\ LET cat == Common(<<out[1], Weakness(ts[at + 1])>>)
           IN IF out[2] = 0 \/ (Broken = 1 /\ out[2] = 2)
              THEN asked' = Append(asked, at) /\ out' = <<cat, o[at + 1]>>
              ELSE UNCHANGED asked /\ out' = <<cat, out[2]>>
        /\ UNCHANGED <<o, ts>>
Laws == at = Len(o) => out \o <<Len(asked)>> \o asked = Chain(o, ts)
Strong == out[2] = 2 => out[1] = 2
=============================================================================
