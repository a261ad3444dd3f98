------------------------------- MODULE RuneMC -------------------------------
(* Laws of the digit, case and escape definitions over every ASCII character *)
(* and every radix: digits invert each other, case mappings are inverse and  *)
(* idempotent, escapes are injective and stay printable.                     *)
EXTENDS RuneDefs, TLC

VARIABLES cc, rr
Init == cc \in 0..255 /\ rr \in 0..36
Next == UNCHANGED <<cc, rr>>
DigitLaw == /\ (cc < rr => DigitVal(DigitOf(cc)) = cc)
            /\ (DigitVal(cc) < rr => ToLower(cc) = DigitOf(DigitVal(cc)))
CaseLaw == /\ ToLower(ToLower(cc)) = ToLower(cc) /\ ToUpper(ToUpper(cc)) = ToUpper(cc)
           /\ ToLower(ToUpper(cc)) = ToLower(cc)
           /\ (ToLower(cc) # cc <=> Upper(cc)) /\ (ToUpper(cc) # cc <=> Lower(cc))
EscapeLaw == /\ \A d \in 0..255 : Escape(cc) = Escape(d) => cc = d
             /\ (cc < 128 => \A k \in 1..Len(Escape(cc)) : Escape(cc)[k] >= 32 /\ Escape(cc)[k] < 127)
=============================================================================
