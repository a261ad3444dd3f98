------------------------------- MODULE FuncMC -------------------------------
(* Histories of function references, deferred actions and interface pointers *)
(* within bounds. Every transition is printed, and histories that take them  *)
(* all are replayed into the code.                                           *)
EXTENDS FuncDefs, FiniteSets, TLC, Json
CONSTANTS Part, Kinds, Slots, Defers, Xs, Objs, Boxes, Lim, Emit, Mutant
VARIABLES st, ran, off
vars == <<st, ran, off>>
Init == st = FuncStart /\ ran = [j \in 0..2 |-> 0] /\ off = [j \in 0..2 |-> FALSE]
\* What a slot may refer to, so that no slot comes to refer to itself.
Below(s) == (CASE s = 0 -> {2, 3} [] s = 1 -> {0, 2, 3} [] s = 2 -> {} [] s = 3 -> {2}) \cap Slots
Kin(s, q) == s # q /\ (s < 2) = (q < 2)
Refs ==
  UNION {{<<"bind", <<s, k, c>>>> : k \in Kinds \cap ({1, 5, 11} \cup IF s < 2 THEN {2} ELSE {}), c \in {0, 1}}
     \cup {<<"bind", <<s, k, 0>>>> : k \in Kinds \cap {3, 4, 7, 8, 9, 10}}
     \cup {<<"bind", <<s, 6, q>>>> : q \in IF 6 \in Kinds THEN Below(s) ELSE {}}
     \cup {<<"same", <<s, q>>>> : q \in {q \in Slots : Kin(s, q) /\ st.slot[q + 1][1] # 6}}
     \cup {<<"null", <<s>>>>, <<"isnull", <<s>>>>}
     \cup {<<"ask", <<s, x>>>> : x \in IF Bound(st, s) THEN Xs ELSE {}} : s \in Slots}
Acts ==
  UNION {IF st.d[j + 1][1] = 0
         THEN {<<"dopen", <<j, k, 0>>>> : k \in Kinds \cap {1, 2, 3, 4, 5, 8, 9}}
              \cup {<<"dopen", <<j, k, t>>>> : k \in Kinds \cap {6, 7}, t \in {t \in Defers : st.d[t + 1][1] # 0 /\ st.d[t + 1][1] # 8}}
         ELSE {<<"drun", <<j>>>>, <<"dcancel", <<j>>>>}
              \* An action that throws may not run when its scope ends, nor may a
              \* scope end before one that refers to it.
              \cup {<<"dclose", <<j>>>> : z \in IF (st.d[j + 1][1] = 8 /\ st.d[j + 1][3] = 1)
                      \/ \E t \in Defers \ {j} : st.d[t + 1][1] \in {6, 7} /\ st.d[t + 1][2] = j THEN {} ELSE {1}}
         : j \in Defers}
Dyns ==
  {<<"point", <<o>>>> : o \in Objs}
  \cup {<<"box", <<b, o, x>>>> : b \in Boxes, o \in Objs, x \in Xs}
  \cup {<<"copybox", <<b, 1 - b>>>> : b \in {b \in Boxes : 1 - b \in Boxes /\ st.box[2 - b][1] # 0}}
  \cup {<<"do", <<r, o, m, x>>>> : r \in {1, 2}, o \in Objs, m \in 0..7, x \in Xs}
  \cup (IF st.at = 0 THEN {} ELSE
       {<<"do", <<r, 0, m, x>>>> : r \in {0, 3, 4, 5}, m \in 0..7, x \in Xs}
       \cup {<<"do", <<6, 0, m, x>>>> : m \in {0, 3, 7}, x \in Xs}
       \cup {<<"do", <<r, 0, m, x>>>> : r \in {10, 11}, m \in {0, 1}, x \in Xs})
  \cup {<<"do", <<r, b, m, x>>>> : r \in {7, 8, 9}, b \in {b \in {0, 1} : st.box[b + 1][1] # 0}, m \in 0..7, x \in Xs}
Count(v, j) == Cardinality({p \in 1..Len(v) : v[p] % 100 = j /\ v[p] # 88})
Small(s) == Part = "acts" \/
            /\ \A c \in 1..2 : s.cell[c] <= Lim /\ s.own[c] <= Lim
            /\ \A c \in Objs : s.obj[c] \in (-Lim)..Lim
            /\ \A b \in 1..2 : s.box[b][2] \in (-Lim)..Lim
Next == \E o \in CASE Part = "refs" -> Refs [] Part = "acts" -> Acts [] Part = "dyns" -> Dyns :
  LET e0 == FApply(st, o[1], o[2])
      \* The broken machine forgets that an action has run.
      e == IF Mutant /\ o[1] = "drun" THEN FOut(e0.k, e0.v, [e0.st EXCEPT !.d = st.d]) ELSE e0
      j == o[2][1]
  IN /\ Small(e.st)
     /\ st' = e.st
     /\ ran' = IF Part # "acts" THEN ran ELSE IF o[1] = "dopen" THEN [ran EXCEPT ![j] = 0]
               ELSE [t \in 0..2 |-> ran[t] + Count(e.v, t)]
     /\ off' = IF Part # "acts" THEN off ELSE IF o[1] = "dopen" THEN [off EXCEPT ![j] = FALSE]
               ELSE IF o[1] = "dcancel" THEN [off EXCEPT ![j] = @ \/ ran[j] = 0]
               ELSE [t \in 0..2 |-> off[t] \/ (ran'[t] = 0 /\ \E q \in 0..2 : Count(e.v, q) > 0 /\ st.d[q + 1][1] = 7 /\ st.d[q + 1][2] = t)]
     /\ IF Emit THEN PrintT(<<"EDGE", ToJson(<<<<st, 0>>, o[1], o[2], <<st', 0>>>>)>>) ELSE TRUE
\* Every action runs once, or never if it was called off before; and by the end
\* of its scope it has.
Once == \A j \in 0..2 : ran[j] <= 1 /\ (off[j] => ran[j] = 0)
Ends == \A j \in 0..2 : st.d[j + 1][1] = 0 => ran[j] = 1 \/ off[j] \/ (ran[j] = 0 /\ st.n[j + 1] = 0 /\ ~off[j] /\ st.d[j + 1] = <<0, 0, 0>>)
Closed == [][\A j \in 0..2 : st.d[j + 1][1] # 0 /\ st'.d[j + 1][1] = 0 => ran'[j] = 1 \/ off'[j]]_vars
\* References that are equal answer alike, and only a function's own state changes.
Alike == \A s, q \in Slots : st.slot[s + 1] = st.slot[q + 1] /\ (s < 2) = (q < 2) /\ Bound(st, s) =>
           \A x \in Xs : Ask(st, s, x) = Ask(st, q, x)
Own == \A s \in Slots : Bound(st, s) => \A x \in Xs : LET r == Ask(st, s, x).st IN
         /\ r.slot = st.slot /\ r.obj = st.obj
         /\ Cardinality({c \in 1..2 : r.cell[c] # st.cell[c]} \cup {c + 2 : c \in {c \in 1..2 : r.own[c] # st.own[c]}}) <= 1
\* Every way to an object leads to the same object.
Ways == st.at # 0 => \A r \in {0, 3, 4, 5}, m \in 0..7, x \in Xs : Through(st, r, 0, m, x) = Through(st, 1, st.at, m, x)
=============================================================================
