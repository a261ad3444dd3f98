-------------------------------- MODULE BoxMC --------------------------------
(* Histories of boxes, exhaustively within bounds. Every transition is       *)
(* printed, and histories that cover them are replayed into the code. Below  *)
(* the registers is the heap: the objects that exist and who owns them.      *)
EXTENDS BoxDefs, FiniteSets, TLC, Json
CONSTANTS Regs, Vals, Tys, Shape, Als, Copies, Emit, Mutant, Ops
VARIABLES w, own, next
vars == <<w, own, next>>
R == 1..Regs
Init == w = [r \in R |-> BOff] /\ own = [r \in R |-> 0] /\ next = {}
Lists == CASE Shape = "one" -> {<<x>> : x \in Vals}
           [] Shape = "two" -> {<<x, x>> : x \in Vals} \cup {<<x, 3 - x>> : x \in Vals}
           [] OTHER -> {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
Arg(t) == <<Len(t)>> \o t
Do(r) == \E o \in
  LET z == r - 1
      on == w[r].on
      have == {q \in R : w[q].on = 1}
      any == {q \in R : w[q].on # 0}
      others == any \ {r}
  IN {<<o, <<z, al, ty>> \o Arg(t)>> : o \in Ops \cap {"new", "wrap"}, al \in Als, ty \in Tys, t \in Lists}
     \cup {<<"moven", <<z, q - 1>>>> : q \in others}
     \cup {<<"raw", <<z, q - 1>>>> : q \in have}
     \cup {<<"try", <<z, q - 1>>>> : q \in IF "try" \in Ops THEN have ELSE {}}
     \cup {<<"copyn", <<z, q - 1>>>> : q \in IF Copies THEN have \ {r} ELSE {}}
     \cup (IF on = 0 THEN {} ELSE
           {<<"drop", <<z, 0>>>>}
           \cup {<<"movea", <<z, q - 1>>>> : q \in any}
           \cup {<<"swap", <<z, q - 1>>>> : q \in any}
           \cup {<<"copya", <<z, q - 1>>>> : q \in IF Copies THEN have ELSE {}})
     \cup (IF on # 1 THEN {} ELSE
           {<<"set", <<z, k - 1, x>>>> : k \in 1..Len(w[r].s), x \in Vals}
           \cup {<<"take", <<z, 0>>>> : x \in IF "take" \in Ops THEN {1} ELSE {}}) :
  LET e == BoxApply(w, o[1], o[2])
      q == o[2][2] + 1
      \* Which object each register owns, were it done by hand.
      new == IF o[1] \in {"new", "wrap", "copyn", "try"} /\ e.k = "ok" THEN {r}
             ELSE IF o[1] = "copya" /\ (Mutant \/ own[r] = 0 \/ r # q) THEN {r} ELSE {}
      fresh == (CHOOSE x \in 1..(Regs + 1) : x \notin next)
      given == IF o[1] \in {"moven", "movea", "raw"} THEN (IF r = q THEN own ELSE [own EXCEPT ![r] = own[q], ![q] = 0])
               ELSE IF o[1] = "swap" THEN [own EXCEPT ![r] = own[q], ![q] = own[r]]
               ELSE IF o[1] = "drop" THEN [own EXCEPT ![r] = 0]
               ELSE IF new = {r} THEN [own EXCEPT ![r] = fresh] ELSE own
      ended == IF o[1] \in {"moven", "movea", "raw", "drop", "new", "wrap", "copyn", "copya", "try"}
                  /\ (e.k = "ok") /\ (o[1] \in {"new", "wrap", "drop"} \/ r # q \/ o[1] = "try")
               THEN {own[r]} \ {0} ELSE {}
  IN /\ w' = e.w /\ own' = given
     /\ next' = (next \cup {given[j] : j \in new}) \ ended
     /\ IF Emit THEN PrintT(<<"EDGE", ToJson(<<<<w, 0>>, o[1], o[2], <<w', 0>>>>)>>) ELSE TRUE
Next == \E r \in R : Do(r)
\* Each owner owns one object that exists, no two the same, and there are no more.
Owned == /\ \A r \in R : (w[r].on = 1) = (own[r] # 0)
         /\ \A r, q \in R : r # q /\ own[r] # 0 => own[r] # own[q]
         /\ next = {own[r] : r \in R} \ {0}
=============================================================================
