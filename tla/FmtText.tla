------------------------------ MODULE FmtText ------------------------------
(* The text of formatted integers, characters and strings, as sequences of   *)
(* code points. Specifiers are the tuples of FmtDefs.                        *)
EXTENDS RuneDefs
Y == INSTANCE Big
T == INSTANCE TextDefs

Rep(c, n) == [j \in 1..n |-> c]
\* Padding to the width, in code points; dflt is 1 left, 2 centre, 3 right.
Pad(s, text, dflt) ==
  LET w == s[7] * 65536 + s[8]
      n == IF w > Len(text) THEN w - Len(text) ELSE 0
      al == IF s[5] = 0 THEN dflt ELSE s[5]
      pre == CASE al = 1 -> 0 [] al = 2 -> n \div 2 [] al = 3 -> n
  IN Rep(s[6], pre) \o text \o Rep(s[6], n - pre)
Is(s, c) == s[12] = c

(***************************************************************************)
(* Integers                                                                *)
(***************************************************************************)
Base(s) == IF Is(s, 98) THEN 2 ELSE IF Is(s, 111) THEN 8 ELSE IF Is(s, 120) \/ Is(s, 88) THEN 16 ELSE 10
RadixPrefix(s) == IF Is(s, 98) THEN <<48, 98>> ELSE IF Is(s, 111) THEN <<48>>
             ELSE IF Is(s, 120) \/ Is(s, 88) THEN <<48, 120>> ELSE <<>>
\* Quotient and remainder of a natural by a small one.
RECURSIVE DivD(_, _, _, _, _)
DivD(a, d, j, r, q) ==
  IF j = 0 THEN [q |-> Y!Norm(q), r |-> r]
  ELSE LET x == r * 256 + a[j] IN DivD(a, d, j - 1, x % d, <<x \div d>> \o q)
RECURSIVE Digs(_, _, _)
Digs(n, b, acc) == LET x == DivD(n, b, Len(n), 0, <<>>)
                   IN IF x.q = <<>> THEN <<x.r>> \o acc ELSE Digs(x.q, b, <<x.r>> \o acc)
Glyph(s, d) == IF Is(s, 88) THEN ToUpper(DigitOf(d)) ELSE DigitOf(d)
IntText(s, x) ==
  LET ds == Digs(x.mag, Base(s), <<>>)
      body == [j \in 1..Len(ds) |-> Glyph(s, ds[j])]
      head == (IF x.neg THEN <<45>> ELSE <<>>) \o (IF s[1] = 1 THEN RadixPrefix(s) ELSE <<>>)
      w == s[7] * 65536 + s[8]
      n == Len(head) + Len(body)
  IN IF s[3] = 1 THEN head \o Rep(48, IF w > n THEN w - n ELSE 0) \o body
     ELSE Pad(s, head \o body, 3)
\* The value such a text denotes.
RECURSIVE Value(_, _, _)
Value(ds, b, acc) == IF ds = <<>> THEN acc
                     ELSE Value(Tail(ds), b, Y!NAdd(Y!NMulSmall(acc, b), Y!NSmall(DigitVal(Head(ds)))))

(***************************************************************************)
(* Characters and strings                                                  *)
(***************************************************************************)
Quoted(s) == Is(s, 113) \/ s[2] = 1
RECURSIVE Escapes(_)
Escapes(r) == IF r = <<>> THEN <<>> ELSE Escape(Head(r)) \o Escapes(Tail(r))
RuneText(s, c) == IF Quoted(s) THEN <<39>> \o Escape(c) \o <<39>> ELSE Pad(s, <<c>>, 1)
Cut(s, r) == IF s[9] = 1 /\ s[10] = 0 /\ s[11] < Len(r) THEN SubSeq(r, 1, s[11]) ELSE r
StrText(s, r) == IF Quoted(s) THEN <<34>> \o Escapes(r) \o <<34>> ELSE Pad(s, Cut(s, r), 1)
BoolText(s, b) == Pad(s, IF b = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>, 1)
Hex == <<1, 0, 0, 0, 0, 32, 0, 0, 0, 0, 0, 120>>
HEX == <<0, 0, 0, 0, 0, 32, 0, 0, 0, 0, 0, 88>>
\* Numbers that are no code point have no character to show.
BadText(s, x) == LET t == <<60, 85, 43>> \o IntText(HEX, x) \o <<62>>
                 IN IF s[2] = 1 THEN <<39>> \o t \o <<39>> ELSE t

\* What a string of units stands for: ill-formed ones as replacements.
RECURSIVE LossyFrom(_, _, _)
LossyFrom(e, u, lo) ==
  IF lo >= Len(u) THEN <<>>
  ELSE LET f == T!FrontOf(e, u, lo, Len(u))
       IN (IF f[2] = 0 THEN <<65533>> \o LossyFrom(e, u, lo + 1)
           ELSE <<f[1]>> \o LossyFrom(e, u, lo + f[2]))
Lossy(e, u) == LossyFrom(e, u, 0)

\* The output is UTF-8; what it cannot hold is replaced.
Shown(c) == IF IsSurrogate(c) THEN 65533 ELSE c
RECURSIVE Bytes8(_)
Bytes8(r) == IF r = <<>> THEN <<>> ELSE Enc(Utf8, Shown(Head(r))) \o Bytes8(Tail(r))

(***************************************************************************)
(* Reading quoted text back. A control escape has two digits, so that      *)
(* what follows is not taken for a third.                                  *)
(***************************************************************************)
Back_(c) == CHOOSE k \in DOMAIN Named : Named[k] = c
RECURSIVE Unescape(_)
Unescape(t) ==
  IF t = <<>> THEN <<>>
  ELSE IF Head(t) # 92 THEN <<Head(t)>> \o Unescape(Tail(t))
  ELSE IF t[2] = 120 THEN <<DigitVal(t[3]) * 16 + DigitVal(t[4])>> \o Unescape(SubSeq(t, 5, Len(t)))
  ELSE IF t[2] = 117 THEN <<((DigitVal(t[3]) * 16 + DigitVal(t[4])) * 16 + DigitVal(t[5])) * 16 + DigitVal(ToLower(t[6]))>>
                          \o Unescape(SubSeq(t, 7, Len(t)))
  ELSE <<Back_(t[2])>> \o Unescape(SubSeq(t, 3, Len(t)))
=============================================================================
