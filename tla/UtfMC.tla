------------------------------- MODULE UtfMC -------------------------------
(* Laws of the reference encodings, over every encoding, boundary code points *)
(* and every unit sequence over boundary units: injective, prefix-free,       *)
(* self-inverse in both directions, and both directions visit the same cuts.  *)
EXTENDS Utf, TLC
CONSTANT MaxLen
VARIABLES e, u
Cps == {0, 1, 65, 127, 128, 255, 256, 2047, 2048, 4095, 4096, 55295, 55296, 56319, 56320, 57343,
        57344, 65533, 65535, 65536, 131071, 1048575, 1048576, 1114111}
Units(x) == CASE x \in {Utf8, Wtf8} -> {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223,
                                        224, 225, 237, 239, 240, 244, 245, 248, 255}
              [] x = Utf16 -> {0, 65, 255, 55295, 55296, 56319, 56320, 57343, 57344, 65535}
              [] x = Utf32 -> {0, 65, 55295, 55296, 57343, 57344, 1114111, 1114112, 2147483647}
              [] OTHER -> {0, 65, 127, 128, 255}
Init == e \in Encodings /\ u = <<>>
Next == /\ Len(u) < MaxLen
        /\ \E x \in Units(e) : u' = Append(u, x)
        /\ UNCHANGED e
RoundTrip == \A c \in Cps : Admits(e, c) =>
               /\ IsEnc(e, Enc(e, c)) /\ Candidate(e, Enc(e, c)) = c
               /\ Front(e, Enc(e, c) \o u) = <<c, Len(Enc(e, c))>>
Unique == Cardinality({k \in Lens(e, u) : IsEnc(e, Prefix(u, k))}) <= 1
          /\ Cardinality({k \in Lens(e, u) : IsEnc(e, Suffix(u, k))}) <= 1
Agree == Valid(e, u) =>
           /\ EncAll(e, Runes(e, u)) = u
           /\ (u # <<>> => LET b == Back(e, u) r == Runes(e, u)
                           IN b = <<r[Len(r)], Len(Enc(e, r[Len(r)]))>>)
SelfSync == \* no proper suffix of an encoded code point decodes
  \A c \in Cps : Admits(e, c) =>
     \A k \in 1..(Len(Enc(e, c)) - 1) : Front(e, Suffix(Enc(e, c), k)) = NoRune
=============================================================================
