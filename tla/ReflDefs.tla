----------------------------- MODULE ReflDefs -----------------------------
(* Reflection of structs and enums.                                          *)
(* A type is described by a chain of steps, run once on an empty mirror:     *)
(*   [o |-> 0, k |-> lo, e |-> hi]  infer: every field (or every value in    *)
(*                                  [lo, hi) that has a name); forgets all   *)
(*                                  that came before                         *)
(*   [o |-> 1, t |-> tags]          tags for the type                        *)
(*   [o |-> 2, k |-> key, t |-> tags]  reflect this item, and add tags to it *)
(*   [o |-> 3, k |-> key]           do not reflect this item                 *)
(* A tag is <<type of tag, payload>>.                                        *)
EXTENDS Integers, Sequences, FiniteSets

\* --- as a machine ---
Blank == [tags |-> <<>>, items |-> <<>>]
Item(k) == [k |-> k, t |-> <<>>]
AllOf(keys) == [j \in DOMAIN keys |-> Item(keys[j])]
At(items, k) == IF \E j \in DOMAIN items : items[j].k = k
                THEN CHOOSE j \in DOMAIN items : items[j].k = k ELSE 0
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Step(st, s, base) ==
  LET j == At(st.items, s.k)
  IN CASE s.o = 0 -> [tags |-> <<>>, items |-> AllOf(SelectSeq(base, LAMBDA k : (s.k <= k /\ k < s.e)))]
       [] s.o = 1 -> [st EXCEPT !.tags = @ \o s.t]
       [] s.o = 2 -> IF j = 0 THEN [st EXCEPT !.items = Append(@, [k |-> s.k, t |-> s.t])]
                     ELSE [st EXCEPT !.items[j].t = @ \o s.t]
       [] s.o = 3 -> [st EXCEPT !.items = Without(@, j)]
RECURSIVE RunFrom(_, _, _, _)
RunFrom(st, steps, n, base) == IF n > Len(steps) THEN st ELSE RunFrom(Step(st, steps[n], base), steps, n + 1, base)
Reflect(steps, base) == RunFrom(Blank, steps, 1, base)
\* hide() must be given something that is reflected at that point.
Proper(steps, base) == \A n \in DOMAIN steps : steps[n].o = 3 =>
                         At(Reflect(SubSeq(steps, 1, n - 1), base).items, steps[n].k) # 0

\* --- in terms of the steps that matter ---
Latest(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Inferred(steps) == Latest({n \in DOMAIN steps : steps[n].o = 0})
Since(steps, k) == Latest({Inferred(steps)} \cup {n \in DOMAIN steps : n > Inferred(steps) /\ steps[n].o = 3 /\ steps[n].k = k})
RECURSIVE Tagged(_, _, _, _)
Tagged(steps, from, o, k) ==
  IF from > Len(steps) THEN <<>>
  ELSE (IF steps[from].o = o /\ (o = 1 \/ steps[from].k = k) THEN steps[from].t ELSE <<>>) \o Tagged(steps, from + 1, o, k)
Withs(steps, k) == {n \in DOMAIN steps : n > Since(steps, k) /\ steps[n].o = 2 /\ steps[n].k = k}
InBase(steps, base, k) ==
  /\ Inferred(steps) # 0 /\ Since(steps, k) = Inferred(steps)
  /\ \E j \in DOMAIN base : base[j] = k
  /\ LET s == steps[Inferred(steps)] IN (s.k <= k /\ k < s.e)
Shown(steps, base, k) == InBase(steps, base, k) \/ Withs(steps, k) # {}
\* Inferred items come first, in their own order; then the others, as they were added.
Rank(steps, base, k) == IF InBase(steps, base, k) THEN CHOOSE j \in DOMAIN base : base[j] = k
                        ELSE 1000 + First(Withs(steps, k))

\* --- names ---
\* A path is a sequence of components <<identifier, parameters>>.
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN <<>>
            ELSE LET h == Head(cs)[1] \o Head(cs)[2] IN IF Len(cs) = 1 THEN h ELSE h \o <<58, 58>> \o Join(Tail(cs))
Lst(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
NameOf(cs) == Lst(cs)[1]
ParamsOf(cs) == Lst(cs)[2]
NameParams(cs) == NameOf(cs) \o ParamsOf(cs)
PathOf(cs) == Join(Append(Front(cs), <<NameOf(cs), <<>>>>))
SpaceOf(cs) == Join(Front(cs))
\* The same from the text alone, by the depth of brackets at each character.
RECURSIVE Depth(_, _)
Depth(s, n) == IF n = 0 THEN 0
               ELSE LET d == Depth(s, n - 1) IN
                    IF s[n] \in {60, 40} THEN d + 1 ELSE IF s[n] \in {62, 41} /\ d > 0 THEN d - 1 ELSE d
NameAt(s) == Latest({0} \cup {n \in 2 .. Len(s) : s[n] = 58 /\ s[n - 1] = 58 /\ Depth(s, n) = 0})
ParamsAt(s) == LET S == {n \in (NameAt(s) + 1) .. Len(s) : s[n] = 60} IN IF S = {} THEN Len(s) + 1 ELSE First(S)
Parts(s) == <<SubSeq(s, NameAt(s) + 1, ParamsAt(s) - 1), SubSeq(s, 1, ParamsAt(s) - 1),
              SubSeq(s, 1, NameAt(s) - 2), SubSeq(s, ParamsAt(s), Len(s))>>
=============================================================================
