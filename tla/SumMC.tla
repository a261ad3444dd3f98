-------------------------------- MODULE SumMC --------------------------------
(* Histories of sums, exhaustively within bounds. Every transition is        *)
(* printed, and histories that cover them are replayed into the code. Below  *)
(* the registers is what an implementation does: it keeps a tag, gives a new *)
(* value by assignment where it can and by destroying and constructing       *)
(* elsewhere, and must end up with exactly the objects that are held.        *)
EXTENDS SumDefs, FiniteSets, TLC, Json, IOUtils
CONSTANTS Regs, Vals, Emit, Mutant, MaxHeld
VARIABLES u, tag, obj, alive
vars == <<u, tag, obj, alive>>
RECURSIVE Digits(_)
Digits(x) == IF x = 0 THEN <<>> ELSE Digits(x \div 10) \o <<x % 10>>
Shape == IF "SHAPE" \in DOMAIN IOEnv THEN Tail(Digits(atoi(IOEnv.SHAPE))) ELSE <<Void, Obj, Fixed>>
R == 1..Regs
Init == /\ u = [r |-> [r \in R |-> SOff], c |-> <<0, 0>>]
        /\ tag = [r \in R |-> -1] /\ obj = [r \in R |-> 0] /\ alive = {}
Tracked(w) == w >= 0 /\ Shape[w + 1] \in {Obj, Fixed, Mover, Boxed}
Can(r) == u.r[r].on
Values(k) == IF Shape[k + 1] = Ref THEN {0, 1} ELSE IF Shape[k + 1] = Void THEN {0} ELSE Vals
Unused == CHOOSE x \in 1..(2 * Regs + 1) : x \notin alive
\* Storage r is to hold alternative w.
Give(r, w, src) ==
  LET assign == tag[r] = w /\ Tracked(w) /\ Shape[w + 1] # Fixed
      keep == IF assign THEN alive ELSE IF Mutant /\ tag[r] >= 0 /\ tag[r] # w THEN alive ELSE alive \ {obj[r]}
      new == CHOOSE x \in 1..(2 * Regs + 1) : x \notin alive
  IN /\ tag' = [tag EXCEPT ![r] = w]
     /\ obj' = [obj EXCEPT ![r] = IF assign THEN obj[r] ELSE IF Tracked(w) THEN new ELSE 0]
     /\ alive' = IF assign \/ ~Tracked(w) THEN keep ELSE keep \cup {new}
Clear(r) == /\ tag' = [tag EXCEPT ![r] = -1] /\ obj' = [obj EXCEPT ![r] = 0] /\ alive' = alive \ {obj[r]}
Same == UNCHANGED <<tag, obj, alive>>
Low(o, a) ==
  LET r == a[1] + 1
      q == a[2] + 1
  IN CASE o \in {"new", "put"} -> Give(r, a[2], 0)
       [] o = "drop" -> Clear(r)
       [] o \in {"copyn", "copya", "moven", "movea"} -> IF r = q THEN Same ELSE Give(r, tag[q], q)
       [] o = "swap" -> tag' = [tag EXCEPT ![r] = tag[q], ![q] = tag[r]]
                        /\ obj' = [obj EXCEPT ![r] = obj[q], ![q] = obj[r]] /\ UNCHANGED alive
       [] OTHER -> Same
Do(r) == \E o \in
  LET z == r - 1
      on == u.r[r].on
      have == {q \in R : u.r[q].on = 1}
      any == {q \in R : u.r[q].on # 0}
      cp == Copyable(Shape)
      all == {<<w, x>> : w \in 0..(Len(Shape) - 1), x \in Vals \cup {0, 1}}
      ok == {p \in all : p[2] \in Values(p[1])}
  IN {<<IF on = 0 THEN "new" ELSE "put", <<z, p[1], p[2]>>>> : p \in ok}
     \cup {<<"moven", <<z, q - 1>>>> : q \in any \ {r}}
     \cup {<<"copyn", <<z, q - 1>>>> : q \in IF cp THEN have \ {r} ELSE {}}
     \cup {<<"cell", <<z, k, x>>>> : k \in IF z = 0 /\ \E j \in 1..Len(Shape) : Shape[j] = Ref THEN {0, 1} ELSE {}, x \in Vals}
     \cup (IF on = 0 THEN {} ELSE
           {<<"drop", <<z, 0>>>>}
           \cup {<<"movea", <<z, q - 1>>>> : q \in any}
           \cup {<<"swap", <<z, q - 1>>>> : q \in any}
           \cup {<<"copya", <<z, q - 1>>>> : q \in IF cp THEN have ELSE {}})
     \cup (IF on # 1 THEN {} ELSE {<<"set", <<z, x>>>> : x \in Vals}) :
  LET e == SumApply(0, Shape, u, o[1], o[2])
  IN /\ u' = e.st
     /\ Low(o[1], o[2])
     /\ IF Emit THEN PrintT(<<"EDGE", ToJson(<<<<u.r, u.c>>, o[1], o[2], <<u'.r, u'.c>>>>)>>) ELSE TRUE
Next == \E r \in R : Do(r)
View == IF Emit THEN <<u, 0, 0, 0>> ELSE vars
\* What is alive is what is held; the tag says what that is.
Exact == /\ \A r \in R : u.r[r].on = 1 => tag[r] = u.r[r].w
         /\ \A r \in R : (u.r[r].on = 0) => tag[r] = -1
         /\ \A r \in R : Tracked(tag[r]) = (obj[r] # 0)
         /\ alive = {obj[r] : r \in R} \ {0}
         /\ \A r, q \in R : r # q /\ obj[r] # 0 => obj[r] # obj[q]
=============================================================================
