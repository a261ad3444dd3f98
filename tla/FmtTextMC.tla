----------------------------- MODULE FmtTextMC -----------------------------
(* Laws of formatted text: digits denote the value, padding reaches the      *)
(* width and adds nothing else, quoting can be undone.                       *)
EXTENDS FmtText, FiniteSets, TLC
CONSTANTS MaxLen, Widths, Broken
VARIABLES kind, x, s
Cps == {48, 65, 34, 92, 120, 0, 27, 8205, 128, 56832, 65536}
Mags == {<<>>, <<1>>, <<7>>, <<10>>, <<255>>, <<0, 1>>, <<0, 128>>, <<255, 255, 255, 127>>, <<1, 0, 0, 128>>,
         <<0, 0, 0, 0, 0, 0, 0, 128>>, <<255, 255, 255, 255, 255, 255, 255, 255>>}
Specs == {<<a, 0, z, 0, al, f, 0, w, p, 0, p, m>> :
            a \in {0, 1}, z \in {0, 1}, al \in 0..3, f \in {32, 233}, w \in Widths, p \in {0, 1}, m \in {0, 98, 111, 120, 88, 113}}
Texts == UNION {[1..k -> Cps] : k \in 0..MaxLen}
Init == \/ kind = 0 /\ x \in {Y!Z(n, m) : n \in BOOLEAN, m \in Mags} /\ s \in Specs
        \/ kind = 1 /\ x \in Texts /\ s \in {sp \in Specs : sp[12] = 113 /\ sp[1] = 0 /\ sp[3] = 0 /\ sp[5] = 0 /\ sp[6] = 32 /\ sp[8] = 0}
        \/ kind = 2 /\ x \in UNION {[1..k -> {48, 233}] : k \in 0..3} /\ s \in {sp \in Specs : sp[12] = 0 /\ sp[1] = 0 /\ sp[3] = 0}
Next == UNCHANGED <<kind, x, s>>
Max(a, b) == IF a > b THEN a ELSE b
Strip(t) == SelectSeq(t, LAMBDA c : c # s[6])
\* The digits of an unpadded text.
Plain == [s EXCEPT ![7] = 0, ![8] = 0]
Head0 == (IF x.neg THEN 1 ELSE 0) + (IF s[1] = 1 THEN Len(RadixPrefix(s)) ELSE 0)
Denotes == kind = 0 =>
  LET t == IntText(Plain, x) z == IntText([s EXCEPT ![3] = 1, ![5] = 0], x)
      Mag(u) == Value([j \in 1..(Len(u) - Head0) |-> ToLower(u[j + Head0])], Base(s), <<>>)
  IN /\ Mag(t) = x.mag
     /\ Mag(z) = (IF Broken = 1 THEN <<>> ELSE x.mag)
     /\ (t[1] = 45) <=> x.neg
     /\ Len(IntText(s, x)) = Max(Len(t), s[8])
\* Padding adds only fill, and keeps the text together, in the place asked for.
Padded == kind = 2 =>
  LET t == StrText(s, x) c == Cut(s, x)
  IN /\ Len(t) = Max(Len(c), s[8])
     /\ \E k \in 0..(Len(t) - Len(c)) :
          /\ SubSeq(t, k + 1, k + Len(c)) = c
          /\ \A j \in 1..Len(t) : (j <= k \/ j > k + Len(c)) => t[j] = s[6]
          /\ (CASE s[5] \in {0, 1} -> k = 0 [] s[5] = 3 -> k = Len(t) - Len(c)
                [] OTHER -> Len(t) - Len(c) - k \in {k, k + 1})
     /\ (s[9] = 1 => Len(c) <= s[11])
Readable == kind = 1 =>
  LET t == StrText(s, x)
  IN /\ t[1] = 34 /\ t[Len(t)] = 34
     /\ Unescape(SubSeq(t, 2, Len(t) - 1)) = x
     /\ \A j \in 1..Len(t) : t[j] >= 32
Laws == Denotes /\ Padded /\ Readable
=============================================================================
