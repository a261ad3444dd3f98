------------------------------- MODULE CliMC -------------------------------
(* The command-line machine over one declaration that has everything, and    *)
(* every short argument vector over an alphabet that uses it all.            *)
EXTENDS CliDefs
CONSTANTS MaxLen, Broken
VARIABLES a, st
vars == <<a, st>>
F(n, l, k, w, c, s) == [n |-> n, l |-> l, k |-> k, w |-> w, c |-> c, s |-> s]
P(k, w, c, s) == [k |-> k, w |-> w, c |-> c, s |-> s]
\* Bytes, by name.
A == 97  B == 98  E == 101  N == 110  Q == 113  S == 115  U == 117  X == 120  BigX == 88  G == 103  Five == 53
Inner == [f |-> <<F(<<<<E, X>>>>, X, Bool, Plain, Optional, 5)>>, g |-> <<>>, u |-> <<>>, p |-> <<>>, m |-> 2]
Flatd == [f |-> <<F(<<<<E, E>>>>, E, I16, Many, Repeated, 6)>>, g |-> <<>>, u |-> <<>>, p |-> <<>>, m |-> 3]
SubC == [f |-> <<F(<<<<Q, Q>>>>, Q, I16, Maybe, Required, 7), F(<<<<A, A>>>>, A, Bool, Plain, Optional, 8)>>,
         g |-> <<>>, u |-> <<>>, p |-> <<P(I16, Plain, Required, 9), P(Str, Many, Repeated, 10)>>, m |-> 1]
D == [n |-> 10, def |-> <<<<<<0>>>>, <<<<0>>>>, <<<<0>>>>, <<>>, <<<<0>>>>, <<>>, <<>>, <<<<0>>>>, <<<<0>>>>, <<>>>>,
      d |-> [f |-> <<F(<<<<A, A>>>>, A, Bool, Plain, Optional, 1), F(<<<<B, B>>>>, B, Bool, Plain, Repeated, 2),
                     F(<<<<N, Dash, U>>, <<N, N>>>>, N, I16, Plain, Optional, 3)>>,
             g |-> <<[n |-> <<<<G, G>>>>, l |-> BigX, flat |-> 0, d |-> Inner], [n |-> <<>>, l |-> 0, flat |-> 1, d |-> Flatd]>>,
             u |-> <<[n |-> <<<<S, S>>>>, d |-> SubC]>>, p |-> <<P(Str, Maybe, Optional, 4)>>, m |-> 0]]
D1 == Dash
Alphabet == {<<D1, A>>, <<D1, A, B>>, <<D1, B, N>>, <<D1, N>>, <<D1, D1, N, Dash, U>>, <<D1, D1, N, Underscore, U, Equals, Five>>,
             <<Five>>, <<D1, BigX, X>>, <<D1, BigX>>, <<E, X>>, <<D1, D1, G, G, Dot, E, X>>, <<S, S>>, <<D1, D1>>,
             <<D1, E, Equals, Five>>, <<D1, D1, Q, Q, Equals, Five>>, <<D1, D1, A, A, Equals, N>>}
Vectors == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}
Init == a \in Vectors /\ st = Start(D)
Next == st.r = 0 /\ st' = Step(D, a, st) /\ UNCHANGED a
Result(x) == <<x.r, IF x.r = 1 THEN x.vals ELSE <<>>, x.m>>

\* Replacing the argument about to be read by others that mean the same.
Instead(ts) == SubSeq(a, 1, st.at - 1) \o ts \o From(a, st.at + 1)
Same(ts) == Result(RunFrom(D, Instead(ts), st)) = Result(RunFrom(D, a, st))
Reading == st.r = 0 /\ st.at <= Len(a) /\ ~st.ended
Here == a[st.at]
Spellings ==
  Reading =>
    /\ Here = <<D1, N>> => Same(<<<<D1, D1, N, Dash, U>>>>) /\ Same(<<<<D1, D1, N, N>>>>) /\ Same(<<<<D1, D1, N>>>>)
    /\ Here = <<D1, D1, N, Dash, U>> => Same(<<<<D1, D1, N, Underscore, U>>>>)
    /\ Here = <<D1, D1, N, Underscore, U, Equals, Five>> => Same(<<<<D1, N>>, <<Five>>>>) /\ Same(<<<<D1, D1, N, N>>, <<Five>>>>)
    /\ Here = <<D1, E, Equals, Five>> => Same(<<<<D1, D1, E, E>>, <<Five>>>>)
    /\ Here = <<D1, BigX, X>> => Same(<<<<D1, BigX>>, <<E, X>>>>) /\ Same(<<<<D1, D1, G, G, Dot, E, X>>>>)
                                 /\ Same(<<<<D1, D1, G, G>>, <<E, X>>>>)
    /\ Here = <<S, S>> => ~st.ended
Runs ==
  Reading =>
    /\ Here = <<D1, A, B>> => Same(<<<<D1, A>>, <<D1, B>>>>)
    /\ Here = <<D1, B, N>> => Same(<<<<D1, B>>, <<D1, N>>>>)
\* What was accepted is complete, and nothing is used twice or lost.
Sum(f) == LET RECURSIVE S_(_) S_(j) == IF j = 0 THEN 0 ELSE f[j] + S_(j - 1) IN S_(Len(f))
Counts ==
  st.r = 1 =>
    /\ \A s \in {1, 3, 4, 5, 7, 8, 9} : st.seen[s] <= 1
    /\ Len(st.vals[6]) = st.seen[6] /\ Len(st.vals[10]) = st.seen[10]
    /\ Len(st.path) = 2 => st.seen[7] = 1 /\ st.seen[9] = 1
    /\ Len(st.path) = 1 => \A s \in 7..10 : st.seen[s] = 0
    /\ \A s \in 1..10 : st.seen[s] = 0 => st.vals[s] = D.def[s]
    /\ st.at = Len(a) + 1
\* An argument is used by at most one flag: letters apart, there are no more
\* uses than arguments.
Uses == st.r = 1 /\ (\A j \in 1..Len(a) : a[j] \notin {<<D1, A, B>>, <<D1, B, N>>})
        => Sum(st.seen) + Len(st.path) - 1 + (IF st.ended THEN 1 ELSE 0) + (IF Broken = 1 THEN 1 ELSE 0) <= Len(a)
\* What has been rejected stays rejected, whatever follows.
Final == (st.r \in {2, 3, 4} /\ st.at <= Len(a)) =>
           Result(RunFrom(D, SubSeq(a, 1, st.at - 1) \o <<<<Five>>>>, Start(D)))[1] = st.r
Laws == Spellings /\ Runs /\ Counts /\ Uses /\ Final
=============================================================================
