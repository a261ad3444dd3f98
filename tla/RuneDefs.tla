------------------------------ MODULE RuneDefs ------------------------------
(* Definitions of code point classes, digits, ASCII case and escapes.        *)
EXTENDS Utf

In(c, a, b) == c >= a /\ c <= b
Digit(c) == In(c, 48, 57)
Lower(c) == In(c, 97, 122)
Upper(c) == In(c, 65, 90)
B(x) == IF x THEN 1 ELSE 0
Classes(c) == <<
  B(IsSurrogate(c)), B(In(c, 56320, 57343)), B(In(c, 55296, 56319)), B(In(c, 0, 127)),
  B(Lower(c) \/ Upper(c)), B(Lower(c) \/ Upper(c) \/ Digit(c)), B(In(c, 0, 31) \/ c = 127), B(Digit(c)),
  B(Digit(c) \/ In(c, 97, 102) \/ In(c, 65, 70)), B(Lower(c)), B(Upper(c)),
  B(In(c, 33, 126) /\ ~Lower(c) /\ ~Upper(c) /\ ~Digit(c)),
  B(c \in {32, 9, 10, 12, 13}) >>
RECURSIVE Mask(_, _)
Mask(s, j) == IF j > Len(s) THEN 0 ELSE s[j] * 2 ^ (j - 1) + Mask(s, j + 1)
DigitVal(c) == IF Digit(c) THEN c - 48 ELSE IF Lower(c) THEN c - 87 ELSE IF Upper(c) THEN c - 55 ELSE 99
DigitOf(n) == IF n < 10 THEN 48 + n ELSE 87 + n
ToLower(c) == IF Upper(c) THEN c + 32 ELSE c
ToUpper(c) == IF Lower(c) THEN c - 32 ELSE c
Hex2(n) == <<DigitOf(n \div 16), DigitOf(n % 16)>>
\* Escapes of C++: the shortest named one, then hexadecimal.
Named == [c \in {39, 34, 92, 0, 7, 8, 12, 10, 13, 9, 11} |->
            CASE c = 39 -> 39 [] c = 34 -> 34 [] c = 92 -> 92 [] c = 0 -> 48 [] c = 7 -> 97 [] c = 8 -> 98
              [] c = 12 -> 102 [] c = 10 -> 110 [] c = 13 -> 114 [] c = 9 -> 116 [] c = 11 -> 118]
Escape(c) == IF c \in DOMAIN Named THEN <<92, Named[c]>>
             ELSE IF c < 32 \/ c = 127 THEN <<92, 120>> \o Hex2(c)
             ELSE IF c = 8205 THEN <<92, 117, 50, 48, 48, 68>>
             ELSE <<c>>
=============================================================================
