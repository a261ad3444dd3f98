------------------------------ MODULE BoxDefs ------------------------------
(* Boxes. A world is a sequence of registers, each of which is off (0), owns *)
(* an object (1) or has been moved from (2). An object has a dynamic type    *)
(* and the values it is made of; it also has an identity, which no operation *)
(* changes but those that make a new object: identities are `ids`, one       *)
(* sequence per register, and Fresh marks an object that may be new.         *)
EXTENDS Integers, Sequences
Moved == -5
BOff == [on |-> 0, ty |-> 0, s |-> <<>>]
Gone == [on |-> 2, ty |-> 0, s |-> <<>>]
Owns(ty, s) == [on |-> 1, ty |-> ty, s |-> s]
\* Type 2 cannot be copied.
Copyable(ty) == ty # 2
ListAt(a, p) == SubSeq(a, p + 1, p + a[p])
BoxApply(w, op, a) ==
  LET r == a[1] + 1
      q == a[2] + 1
      Out(k, v, u) == [k |-> k, v |-> v, w |-> u]
      Done(u) == Out("ok", <<>>, u)
      Move == IF r = q THEN w ELSE [w EXCEPT ![r] = w[q], ![q] = Gone]
  IN CASE op \in {"new", "wrap"} -> Done([w EXCEPT ![r] = Owns(a[3], ListAt(a, 4))])
       [] op = "drop" -> Done([w EXCEPT ![r] = BOff])
       [] op \in {"moven", "movea", "raw"} -> Done(Move)
       [] op = "swap" -> Done([w EXCEPT ![r] = w[q], ![q] = w[r]])
       [] op \in {"copyn", "copya"} -> Done([w EXCEPT ![r] = w[q]])
       [] op = "try" -> IF Copyable(w[q].ty) THEN Done([w EXCEPT ![r] = w[q]]) ELSE Out("none", <<>>, w)
       [] op = "set" -> Done([w EXCEPT ![r].s[a[2] + 1] = a[3]])
       [] op = "take" -> Out("ok", w[r].s, [w EXCEPT ![r].s = <<Moved>>])
\* The identities after: an unknown one is <<>>.
Ids(ids, w, op, a) ==
  LET r == a[1] + 1
      q == a[2] + 1
      e == BoxApply(w, op, a)
  IN CASE op \in {"moven", "movea", "raw", "swap"} ->
            [j \in 1..Len(ids) |-> IF e.w[j].on # 1 THEN <<>> ELSE IF j = r THEN ids[q]
                                   ELSE IF j = q THEN ids[r] ELSE ids[j]]
       [] op \in {"set", "take"} \/ e.k = "none" -> ids
       [] OTHER -> [ids EXCEPT ![r] = <<>>]
=============================================================================
