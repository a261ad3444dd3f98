------------------------------- MODULE FmtMC -------------------------------
(* The template language: every template over a small alphabet.              *)
EXTENDS FmtDefs, FiniteSets
CONSTANTS MaxLen, Alphabet, Broken
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c)
P(x) == Parse(x)
Holes(ps) == SelectSeq(ps, LAMBDA x : ~x.lit)
\* Writing out what was read reads the same.
RoundTrip == P(t).r = 1 => P(Spell(P(t).ps)) = P(t)
\* The k-th unnumbered placeholder takes argument k - 1, whatever is between.
Auto(ps) == SelectSeq(ps, LAMBDA x : ~x.lit /\ ~x.own)
Number(ps, j) == ps[j].n[2] + (IF Broken = 1 /\ j = 2 THEN 1 ELSE 0)
Numbering == \A j \in 1..Len(Auto(P(t).ps)) : Number(Auto(P(t).ps), j) = j - 1
\* A template made of two is read as the two.
Compose == \A k \in 1..(Len(t) - 1) :
  LET a == SubSeq(t, 1, k) b == SubSeq(t, k + 1, Len(t))
      pa == P(a)
      pb == ParseFrom(b, 1, Len(Auto(pa.ps)), <<>>)
  IN (pa.r = 1 /\ pb.r = 1 /\ P(t).r # 2) => /\ P(t).r = 1
                                /\ Holes(P(t).ps) = Holes(pa.ps) \o Holes(pb.ps)
                                /\ Spell(P(t).ps) = Spell(pa.ps) \o Spell(pb.ps)
\* Escaping any text gives a template that prints it.
Escaped == P(Double(t)) = [r |-> 1, ps |-> IF t = <<>> THEN <<>> ELSE <<Lit(t)>>]
\* Nothing accepted has a lone brace.
Count(c) == Cardinality({j \in 1..Len(t) : t[j] = c})
Balanced == (P(t).r = 1 /\ Holes(P(t).ps) = <<>>) => Count(123) % 2 = 0 /\ Count(125) % 2 = 0
WellFormed == \A j \in 1..Len(Holes(P(t).ps)) :
  LET s == Holes(P(t).ps)[j].s
  IN /\ (s[5] # 0 \/ s[3] = 1) => (s[7] > 0 \/ s[8] > 0)
     /\ s[5] = 0 \/ s[3] = 0
     /\ s[4] = 1 => s = Forward
Laws == RoundTrip /\ Numbering /\ Compose /\ Escaped /\ Balanced /\ WellFormed
=============================================================================
