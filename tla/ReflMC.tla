------------------------------ MODULE ReflMC ------------------------------
(* Every chain of up to MaxLen steps over Keys: the machine agrees with what *)
(* the steps that matter say. Every path of up to MaxComps components: its   *)
(* parts can be told from its text.                                          *)
EXTENDS ReflDefs, TLC
CONSTANTS MaxLen, MaxComps, Broken
VARIABLES steps, path
Keys == {1, 2, 3}
Base == <<1, 2>>   \* 3 is never inferred
T(n) == <<<<n % 2, n>>>>
Comps == {<<<<65>>, <<>>>>, <<<<65, 66>>, <<60, 67, 62>>>>, <<<<66>>, <<60, 65, 58, 58, 67, 62>>>>,
          <<<<65>>, <<60, 65, 60, 67, 62, 58, 58, 66, 44, 68, 62>>>>, <<<<40, 97, 32, 98, 41>>, <<>>>>}
Init == steps = <<>> /\ path = <<>>
Grow == LET n == Len(steps) + 1 IN
  /\ Len(steps) < MaxLen
  /\ \E o \in 0 .. 3 : \E k \in Keys :
       /\ (o = 1 => k = 1)
       /\ LET s == [o |-> o, k |-> IF o = 0 THEN k - 1 ELSE k, e |-> IF o = 0 THEN (IF k = 1 THEN 9 ELSE 2) ELSE 0,
                    t |-> IF o \in {1, 2} THEN T(n) ELSE <<>>]
          IN (o = 3 => At(Reflect(steps, Base).items, k) # 0) /\ steps' = Append(steps, s)
  /\ UNCHANGED path
Lengthen == Len(path) < MaxComps /\ steps = <<>> /\ \E x \in Comps : path' = Append(path, x) /\ UNCHANGED steps
Next == (path = <<>> /\ Grow) \/ Lengthen
Machine == LET st == Reflect(steps, Base) IN IF Broken /\ Len(steps) = 3 THEN [st EXCEPT !.tags = <<>>] ELSE st
Agree ==
  LET st == Machine
      shown == {k \in Keys : Shown(steps, Base, k)}
      its == {st.items[j].k : j \in DOMAIN st.items}
  IN /\ st.tags = Tagged(steps, Inferred(steps) + 1, 1, 0)
     /\ its = shown /\ Cardinality(shown) = Len(st.items)
     /\ \A j \in DOMAIN st.items :
          /\ st.items[j].t = Tagged(steps, Since(steps, st.items[j].k) + 1, 2, st.items[j].k)
          /\ (j > 1 => Rank(steps, Base, st.items[j - 1].k) < Rank(steps, Base, st.items[j].k))
\* What infer() starts from does not depend on what came before it.
Forgets == LET n == Inferred(steps) IN
             n > 0 => Reflect(steps, Base) = Reflect(SubSeq(steps, n, Len(steps)), Base)
\* Hiding an item and adding it again loses its tags and its place.
Names == path # <<>> =>
  Parts(Join(path)) = <<NameOf(path), PathOf(path), SpaceOf(path), ParamsOf(path)>>
Laws == Agree /\ Forgets /\ Names
=============================================================================
