------------------------------ MODULE LayoutMC ------------------------------
(* A structure is the smallest that holds its members, in order, aligned, in *)
(* every element of an array of it; a union the smallest that holds each.    *)
EXTENDS LayoutDefs, FiniteSets, TLC
CONSTANTS Many, Broken
VARIABLE ms
Kinds == {<<s, a>> \in (1..4) \X {1, 2, 4} : s % a = 0}
Lists == UNION {[1..n -> Kinds] : n \in 1..Many}
S == IF Broken = 1 THEN <<End(ms, 0), Align(ms)>> ELSE Struct(ms)
U == Union(ms)
\* Offsets at which the members may be, in a structure of n bytes at any
\* multiple of the alignment.
Placing(n) == {o \in [1..Len(ms) -> 0..n] :
                 /\ \A j \in 1..Len(ms) : o[j] % ms[j][2] = 0 /\ o[j] + ms[j][1] <= n
                 /\ \A j \in 1..Len(ms) - 1 : o[j] + ms[j][1] <= o[j + 1]}
Aligned(n, a) == \A j \in 1..Len(ms) : a % ms[j][2] = 0
Init == ms \in Lists
Next == UNCHANGED ms
Laws ==
  /\ S[1] % S[2] = 0 /\ U[1] % U[2] = 0
  /\ Aligned(S[1], S[2]) /\ \E j \in 1..Len(ms) : ms[j][2] = S[2]
  /\ Placing(S[1]) # {}
  /\ \A n \in 1..S[1] - 1 : n % S[2] = 0 => Placing(n) = {}
  /\ \A j \in 1..Len(ms) : ms[j][1] <= U[1]
  /\ \A n \in 1..U[1] - 1 : n % U[2] = 0 => \E j \in 1..Len(ms) : ms[j][1] > n
=============================================================================
