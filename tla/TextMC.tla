------------------------------- MODULE TextMC -------------------------------
(* Laws of the text operations over every pair of short texts: ordering is   *)
(* total and agrees with equality; splitting loses nothing; comparing and    *)
(* searching raw units is the same as working on code points exactly where   *)
(* the encoding promises it (its is_lexicographic / is_self_syncing).        *)
EXTENDS TextDefs, TLC
CONSTANT MaxLen
VARIABLES e, x, y, z
Cps == {65, 128, 233, 2048, 55297, 57344, 65535, 65536, 66560}
Texts == {<<>>}
Init == e \in Encodings /\ x = <<>> /\ y = <<>> /\ z = <<>>
Grow(s) == {Append(s, c) : c \in {c \in Cps : Admits(e, c)}}
Next == \/ Len(x) < MaxLen /\ x' \in Grow(x) /\ UNCHANGED <<e, y, z>>
        \/ Len(x) = MaxLen /\ Len(y) < MaxLen /\ y' \in Grow(y) /\ UNCHANGED <<e, x, z>>
        \/ Len(x) <= 1 /\ Len(z) < 1 /\ z' \in Grow(z) /\ UNCHANGED <<e, x, y>>
        \/ Len(y) < Len(x) /\ y' \in Grow(y) /\ UNCHANGED <<e, x, z>>
Total == /\ Cmp(x, y, 1) = 0 - Cmp(y, x, 1)
         /\ (Cmp(x, y, 1) = 0) <=> (x = y)
         /\ (Cmp(x, y, 1) <= 0 /\ Cmp(y, z, 1) <= 0) => Cmp(x, z, 1) <= 0
         /\ (Cmp(z, x, 1) <= 0 /\ Cmp(x, y, 1) <= 0) => Cmp(z, y, 1) <= 0
UnitOrder == Cmp(EncAll(e, x), EncAll(e, y), 1) = Cmp(x, y, 1)
Lexicographic == e # Utf16 => UnitOrder
RECURSIVE Rejoin(_, _)
Rejoin(ps, sep) == IF Len(ps) = 1 THEN SubSeq(x, ps[1][1] + 1, ps[1][2])
                   ELSE SubSeq(x, ps[1][1] + 1, ps[1][2]) \o sep \o Rejoin(Tail(ps), sep)
Reverse(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Lossless == y # <<>> =>
  /\ Rejoin(Split(x, StringPat(y), 0, Len(x)), y) = x
  /\ Rejoin(Reverse(RSplit(x, StringPat(y), 0, Len(x))), y) = x
UnitHits == LET u == EncAll(e, x) w == EncAll(e, y) os == Offsets(e, x)
            IN {k \in 0..(Len(u) - Len(w)) : SubSeq(u, k + 1, k + Len(w)) = w}
               = {os[k + 1] : k \in Hits(x, StringPat(y), 0, Len(x))}
SelfSync == y # <<>> => UnitHits
=============================================================================
