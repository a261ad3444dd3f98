------------------------------- MODULE BigMC -------------------------------
(* Sanity of the reference arithmetic itself: Big agrees with TLC's own      *)
(* integers wherever those can express the result, and wraps correctly.      *)
EXTENDS Big, TLC
VARIABLES x, y
Dom == {-70000, -65537, -65536, -65535, -32769, -32768, -32767, -257, -256, -255, -129, -128, -127,
        -17, -3, -2, -1, 0, 1, 2, 3, 5, 16, 127, 128, 129, 254, 255, 256, 257, 300,
        4095, 32767, 32768, 65535, 65536, 65537, 70000}
Init == x \in Dom /\ y \in Dom
Next == UNCHANGED <<x, y>>
Abs0(n) == IF n < 0 THEN -n ELSE n
AddOk == Add(Small(x), Small(y)) = Small(x + y)
SubOk == Sub(Small(x), Small(y)) = Small(x - y)
MulOk == Abs0(x) < 46340 /\ Abs0(y) < 46340 => Mul(Small(x), Small(y)) = Small(x * y)
CmpOk == Cmp(Small(x), Small(y)) = IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
CastOk == \A w \in {8, 16} : \A s \in {0, 1} :
            LET m == 2 ^ w r == x % m v == IF s = 1 /\ r >= m \div 2 THEN r - m ELSE r
            IN Cast(Small(x), [w |-> w, s |-> s]) = Small(v)
LimbOk == FromLimbs(ToLimbs(Small(x)), 1) = Small(x)
BitsOk == \A w \in {16, 64} : x >= 0 /\ x < 65536 => FromBits(Bit(Small(x), w)) = Small(x)
=============================================================================
