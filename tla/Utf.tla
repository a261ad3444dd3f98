------------------------------- MODULE Utf -------------------------------
(* Text encodings, by definition: each encoding is an injective map from its *)
(* admissible code points to code-unit sequences, and decoding is nothing    *)
(* but its inverse on prefixes (or, backwards, on suffixes).                 *)
EXTENDS Integers, Sequences, FiniteSets

Ascii == 0  Latin1 == 1  Utf8 == 2  Wtf8 == 3  Utf16 == 4  Utf32 == 5
Encodings == 0..5
IsSurrogate(c) == c >= 55296 /\ c <= 57343
InUnicode(c) == c >= 0 /\ c <= 1114111
IsScalar(c) == InUnicode(c) /\ ~IsSurrogate(c)

Admits(e, c) ==
  CASE e = Ascii  -> c >= 0 /\ c <= 127
    [] e = Latin1 -> c >= 0 /\ c <= 255
    [] e = Wtf8   -> InUnicode(c)
    [] OTHER      -> IsScalar(c)

\* The standard encoding of an admissible code point.
Enc(e, c) ==
  CASE e \in {Ascii, Latin1, Utf32} -> <<c>>
    [] e \in {Utf8, Wtf8} ->
         IF c < 128 THEN <<c>>
         ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
         ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
         ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] e = Utf16 ->
         IF c < 65536 THEN <<c>>
         ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
MaxUnits(e) == CASE e \in {Utf8, Wtf8} -> 4 [] e = Utf16 -> 2 [] OTHER -> 1
UnitMax(e) == CASE e = Utf16 -> 65535 [] e = Utf32 -> 2147483647 [] OTHER -> 255

\* The only code point that a sequence of units could stand for.
Candidate(e, u) ==
  CASE e \in {Ascii, Latin1, Utf32} -> u[1]
    [] e \in {Utf8, Wtf8} ->
         (CASE Len(u) = 1 -> u[1]
            [] Len(u) = 2 -> (u[1] % 32) * 64 + (u[2] % 64)
            [] Len(u) = 3 -> (u[1] % 16) * 4096 + (u[2] % 64) * 64 + (u[3] % 64)
            [] Len(u) = 4 -> (u[1] % 8) * 262144 + (u[2] % 64) * 4096 + (u[3] % 64) * 64 + (u[4] % 64))
    [] e = Utf16 -> IF Len(u) = 1 THEN u[1]
                    ELSE 65536 + (u[1] % 1024) * 1024 + (u[2] % 1024)
IsEnc(e, u) == LET c == Candidate(e, u) IN Admits(e, c) /\ Enc(e, c) = u
Prefix(u, k) == SubSeq(u, 1, k)
Suffix(u, k) == SubSeq(u, Len(u) - k + 1, Len(u))
Lens(e, u) == 1..(IF Len(u) < MaxUnits(e) THEN Len(u) ELSE MaxUnits(e))

NoRune == <<-1, 0>>
\* <<code point, units>> at the front (back) of u, or NoRune.
Front(e, u) == LET ks == {k \in Lens(e, u) : IsEnc(e, Prefix(u, k))}
               IN IF ks = {} THEN NoRune
                  ELSE LET k == CHOOSE k \in ks : TRUE IN <<Candidate(e, Prefix(u, k)), k>>
Back(e, u) == LET ks == {k \in Lens(e, u) : IsEnc(e, Suffix(u, k))}
              IN IF ks = {} THEN NoRune
                 ELSE LET k == CHOOSE k \in ks : TRUE IN <<Candidate(e, Suffix(u, k)), k>>

RECURSIVE ValidFrom(_, _, _)
ValidFrom(e, u, p) ==
  IF p > Len(u) THEN TRUE
  ELSE LET hi == IF Len(u) < p + 3 THEN Len(u) ELSE p + 3
           f == Front(e, SubSeq(u, p, hi))
       IN IF f[2] = 0 THEN FALSE ELSE ValidFrom(e, u, p + f[2])
Valid(e, u) == ValidFrom(e, u, 1)

\* Code points of a valid sequence of units, and where each one starts.
RECURSIVE RunesFrom(_, _, _)
RunesFrom(e, u, p) ==
  IF p > Len(u) THEN <<>>
  ELSE LET hi == IF Len(u) < p + 3 THEN Len(u) ELSE p + 3
           f == Front(e, SubSeq(u, p, hi))
       IN <<f[1]>> \o RunesFrom(e, u, p + f[2])
Runes(e, u) == RunesFrom(e, u, 1)
RECURSIVE EncAll(_, _)
EncAll(e, r) == IF r = <<>> THEN <<>> ELSE Enc(e, Head(r)) \o EncAll(e, Tail(r))
\* Offsets (0-based) of rune boundaries of valid u, the end included.
RECURSIVE BoundsFrom(_, _)
BoundsFrom(e, r) == IF r = <<>> THEN <<0>>
                    ELSE LET rest == BoundsFrom(e, Tail(r)) n == Len(Enc(e, Head(r)))
                         IN <<0>> \o [j \in 1..Len(rest) |-> rest[j] + n]
Offsets(e, r) == BoundsFrom(e, r)
AllAdmit(e, r) == \A j \in 1..Len(r) : Admits(e, r[j])
===========================================================================
