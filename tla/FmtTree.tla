------------------------------ MODULE FmtTree ------------------------------
(* Structured output: the formatter as a machine that writes code points,    *)
(* knows its depth and whether it is at the start of a line, and the trees   *)
(* of writes, blocks and values that drive it.                               *)
(* A tree is a sequence of integers in prefix form:                          *)
(*   0 h l          an integer (32 bits in halves, signed)                   *)
(*   1 n cps        a string                                                 *)
(*   2 e n units    raw text, in encoding e                                  *)
(*   3 cp           a raw character                                          *)
(*   4 spec tree    the tree under another specifier                         *)
(*   5 n trees      one after the other                                      *)
(*   6 b n title adv m entries fin   a block; b 0 list 1 tuple 2 record      *)
(*   7 t tree       through a template                                       *)
(*   8 c n trees    a composite value of kind c                              *)
(*   9 c x y        a value without parts                                    *)
(* An entry: 0 tree | 1 spec tree | 2 n name tree | 3 n name spec tree |     *)
(*   4 tree tree | 5 spec tree spec tree                                     *)
EXTENDS FmtText

Start == [out |-> <<>>, depth |-> 0, bol |-> FALSE]
RECURSIVE Write(_, _)
\* Only what is not a line break is indented.
Write(st, cs) ==
  IF cs = <<>> THEN st
  ELSE LET c == Head(cs)
       IN IF c = 10 THEN Write([st EXCEPT !.out = Append(@, 10), !.bol = TRUE], Tail(cs))
          ELSE LET line == SubSeq(cs, 1, (CHOOSE j \in 1..Len(cs) :
                                 /\ \A k \in 1..j : cs[k] # 10
                                 /\ (j = Len(cs) \/ cs[j + 1] = 10)))
               IN Write([st EXCEPT !.out = @ \o (IF st.bol THEN Rep(32, 2 * st.depth) ELSE <<>>) \o line,
                                   !.bol = FALSE],
                        SubSeq(cs, Len(line) + 1, Len(cs)))
Down(st) == [st EXCEPT !.depth = @ + 1]
Up(st) == [st EXCEPT !.depth = @ - 1]

PlainS == <<0, 0, 0, 0, 0, 32, 0, 0, 0, 0, 0, 0>>
DebugS == [PlainS EXCEPT ![2] = 1]
\* The specifier in force inside, for one asked for.
Under(s, new) == IF new[4] = 1 THEN s ELSE new
SpecAt(a, p) == SubSeq(a, p, p + 11)
TextAt(a, p) == SubSeq(a, p + 1, p + a[p])

(***************************************************************************)
(* Blocks. The multi-line form puts every entry on a line of its own; a    *)
(* block told that it has a single entry stays on one line.                *)
(***************************************************************************)
Open(b) == CASE b = 0 -> <<91>> [] b = 1 -> <<40>> [] b = 2 -> <<123>>
Shut(b) == CASE b = 0 -> <<93>> [] b = 1 -> <<41>> [] b = 2 -> <<125>>
Title(t) == IF t = <<>> THEN <<>> ELSE t \o <<32>>
Begin_(st, b, title, multi) ==
  LET x == Write(st, Title(title) \o Open(b)) IN IF multi THEN Down(x) ELSE x
Between(st, k, multi) ==
  Write(st, (IF k > 1 THEN <<44>> ELSE <<>>) \o (IF multi THEN <<10>> ELSE IF k > 1 THEN <<32>> ELSE <<>>))
End_(st, b, n, multi) ==
  LET x == IF multi /\ n > 0 THEN Write(st, <<44, 10>>) ELSE st
  IN Write(IF multi THEN Up(x) ELSE x, Shut(b))

(***************************************************************************)
(* Names in composites.                                                    *)
(***************************************************************************)
Option == <<111, 112, 116, 105, 111, 110>>
Choice == <<99, 104, 111, 105, 99, 101, 60>>
OkName == <<111, 107>>
ErrName == <<101, 114, 114>>
Void == <<118, 111, 105, 100>>
NoneName == <<110, 111, 110, 101>>
Pair == <<80, 97, 105, 114>>
Empty == <<69, 109, 112, 116, 121>>
Colon == <<58, 32>>
DecOf(n) == IntText(PlainS, Y!Small(n))
Parens(st, name) == Write(st, name \o <<40>>)

RECURSIVE Fmt(_, _, _, _), Seqs(_, _, _, _, _), Entries(_, _, _, _, _, _), Items(_, _, _, _, _, _, _),
          Fields(_, _, _, _, _, _, _)
R(p, st) == [p |-> p, st |-> st]
\* n trees in a row.
Seqs(a, p, n, s, st) == IF n = 0 THEN R(p, st)
                        ELSE LET x == Fmt(a, p, s, st) IN Seqs(a, x.p, n - 1, s, x.st)
\* n trees as the unnamed entries k, k+1, ... of a block.
Items(a, p, k, n, s, st, multi) ==
  IF k > n THEN R(p, st)
  ELSE LET x == Fmt(a, p, s, Between(st, k, multi)) IN Items(a, x.p, k + 1, n, s, x.st, multi)
\* Named entries, names given.
Fields(a, p, k, names, s, st, multi) ==
  IF k > Len(names) THEN R(p, st)
  ELSE LET x == Fmt(a, p, s, Write(Between(st, k, multi), names[k] \o Colon))
       IN Fields(a, x.p, k + 1, names, s, x.st, multi)
ListOf(a, p, n, b, title, s, st) ==
  LET multi == s[1] = 1
      x == Items(a, p, 1, n, s, Begin_(st, b, title, multi), multi)
  IN R(x.p, End_(x.st, b, n, multi))
RecordOf(a, p, names, title, s, st) ==
  LET multi == s[1] = 1
      x == Fields(a, p, 1, names, s, Begin_(st, 2, title, multi), multi)
  IN R(x.p, End_(x.st, 2, Len(names), multi))
\* name(tree)
Wrap(a, p, name, s, st) ==
  LET x == Fmt(a, p, s, Parens(st, name)) IN R(x.p, Write(x.st, <<41>>))
Fixed(p, text, st) == R(p, Write(st, text))

Entry(a, p, k, s, st0, multi) ==
  LET st == Between(st0, k, multi) IN
  CASE a[p] = 0 -> Fmt(a, p + 1, s, st)
    [] a[p] = 1 -> Fmt(a, p + 13, Under(s, SpecAt(a, p + 1)), st)
    [] a[p] = 2 -> Fmt(a, p + 2 + a[p + 1], s, Write(st, TextAt(a, p + 1) \o Colon))
    [] a[p] = 3 -> LET q == p + 2 + a[p + 1]
                   IN Fmt(a, q + 12, Under(s, SpecAt(a, q)), Write(st, TextAt(a, p + 1) \o Colon))
    [] a[p] = 4 -> LET x == Fmt(a, p + 1, s, st) IN Fmt(a, x.p, s, Write(x.st, Colon))
    [] a[p] = 5 -> LET x == Fmt(a, p + 13, Under(s, SpecAt(a, p + 1)), st)
                   IN Fmt(a, x.p + 12, Under(s, SpecAt(a, x.p)), Write(x.st, Colon))
Entries(a, p, k, m, s, st) ==       \* s is <<specifier, multi>>
  IF k > m THEN R(p, st)
  ELSE LET x == Entry(a, p, k, s[1], st, s[2]) IN Entries(a, x.p, k + 1, m, s, x.st)
Block(a, p, s, st) ==
  LET b == a[p + 1]
      title == TextAt(a, p + 2)
      q == p + 3 + a[p + 2]
      m == a[q + 1]
      multi == s[1] = 1 /\ a[q] # 1
      x == Entries(a, q + 2, 1, m, <<s, multi>>, Begin_(st, b, title, multi))
  IN R(x.p + 1, End_(x.st, b, m, multi))

\* Templates the driver knows: text before, specifier, text after.
Template(t) == CASE t = 0 -> [pre |-> <<60>>, s |-> [DebugS EXCEPT ![4] = 1], post |-> <<62>>]
                 [] t = 1 -> [pre |-> <<>>, s |-> PlainS, post |-> <<>>]
                 [] t = 2 -> [pre |-> <<10>>, s |-> [DebugS EXCEPT ![1] = 1], post |-> <<10>>]
                 [] t = 3 -> [pre |-> <<123>>, s |-> [PlainS EXCEPT ![1] = 1, ![12] = 120], post |-> <<125, 10, 33>>]

Composite(c, n, a, p, s, st) ==
  CASE c = 0 -> IF n = 0 THEN Fixed(p, NoneName, st) ELSE Wrap(a, p, Option, s, st)
    [] c = 1 -> Wrap(a, p, OkName, s, st)
    [] c = 2 -> Wrap(a, p, ErrName, s, st)
    [] c \in {3, 4, 5} -> Wrap(a, p, Choice \o DecOf(c - 3) \o <<62>>, s, st)
    [] c = 6 -> ListOf(a, p, n, 1, <<>>, s, st)              \* a row
    [] c \in {7, 8} -> ListOf(a, p, n, 0, <<>>, s, st)       \* a vector, a span
    [] c = 9 -> Seqs(a, p, 1, s, st)                         \* a box
    [] c = 10 -> ListOf(a, p, n, 1, <<>>, s, Write(st, OkName))
    [] c = 11 -> ListOf(a, p, n, 1, <<>>, s, Write(st, ErrName))
    [] c = 12 -> RecordOf(a, p, <<<<120>>, <<121, 121>>>>, Pair, s, st)
    [] c = 13 -> Seqs(a, p, 1, s, st)                        \* an object
    [] c = 14 -> IF n = 0 THEN Fixed(p, NoneName, st) ELSE Wrap(a, p, Option, s, st)
    [] c = 15 -> LET x == Wrap(a, p, Option, s, Parens(st, OkName)) \* result of option
                 IN R(x.p, Write(x.st, <<41>>))
    [] c = 16 -> \* a vector of rows of one and a void
         LET multi == s[1] = 1
             x == Begin_(st, 0, <<>>, multi)
             y == IF n = 0 THEN R(p, x) ELSE
                  LET m1 == Begin_(Between(x, 1, multi), 1, <<>>, multi)
                      m2 == Fmt(a, p, s, Between(m1, 1, multi))
                      m3 == Write(Between(m2.st, 2, multi), Void)
                  IN R(m2.p, End_(m3, 1, 2, multi))
         IN R(y.p, End_(y.st, 0, n, multi))

Size == <<115, 105, 122, 101>>
Align == <<97, 108, 105, 103, 110>>
IntAt(s, n) == IntText(s, Y!Small(n))
RECURSIVE HexBytes(_)
HexBytes(n) == \* four bytes, low first
  <<DigitOf((n \div 16) % 16), DigitOf(n % 16)>>
Dot(t) == <<46>> \o t \o <<32, 61, 32>>
StartName == <<115, 116, 97, 114, 116>>
EndName == <<101, 110, 100>>
Including == <<105, 110, 99, 108, 117, 100, 105, 110, 103, 95, 101, 110, 100>>
CountName == <<99, 111, 117, 110, 116>>
Sep(x, y) == IF x # 0 THEN <<44, 32>> \o y ELSE y
Range(x, k, y) ==
  <<123>> \o (IF x # 0 THEN Dot(StartName) \o DecOf(x) ELSE <<>>)
  \o (CASE k = 0 -> <<>>
        [] k = 1 -> Sep(x, Dot(EndName) \o DecOf(y))
        [] k = 2 -> Sep(x, Dot(Including) \o DecOf(y))
        [] k = 3 -> Sep(x, Dot(CountName) \o DecOf(y)))
  \o <<125>>
OrdName(x) == CASE x = 0 -> <<69, 113, 117, 97, 108>>
                [] x = 1 -> <<76, 101, 115, 115>>
                [] x = 2 -> <<71, 114, 101, 97, 116, 101, 114>>
                [] x = 3 -> <<85, 110, 111, 114, 100, 101, 114, 101, 100>>
Unprintable == <<117, 110, 112, 114, 105, 110, 116, 97, 98, 108, 101, 32>>
ByteValue == <<45, 98, 121, 116, 101, 32, 118, 97, 108, 117, 101, 58, 32, 96>>
AtoiError == <<97, 116, 111, 105, 95, 101, 114, 114, 111, 114>>
Color == <<67, 111, 108, 111, 114>>
Value_(c, x, y, s, st) ==
  CASE c = 0 -> Write(st, Option \o <<40>> \o Void \o <<41>>)
    [] c = 1 -> Write(st, OkName \o <<40>> \o Void \o <<41>>)
    [] c = 2 -> Write(st, ErrName \o <<40>> \o Void \o <<41>>)
    [] c = 3 -> Write(st, Choice \o <<49, 62, 40>> \o Void \o <<41>>)
    [] c = 4 -> Write(st, NoneName)
    [] c = 5 -> Write(st, OrdName(x))
    [] c = 6 -> \* a layout of x bytes aligned to y
         LET multi == s[1] = 1
             m1 == Write(Between(Begin_(st, 2, <<>>, multi), 1, multi), Size \o Colon \o IntAt(s, x))
             m2 == Write(Between(m1, 2, multi), Align \o Colon \o IntAt(s, y))
         IN End_(m2, 2, 2, multi)
    [] c = 7 -> End_(Begin_(st, 2, AtoiError, s[1] = 1), 2, 0, s[1] = 1)
    [] c \in {8, 9, 10, 11} -> Write(st, Range(x, c - 8, y))
    [] c = 12 -> Write(st, Unprintable \o DecOf(2) \o ByteValue \o HexBytes(x) \o HexBytes(y) \o <<96>>)
    [] c = 13 -> Write(st, Color \o (CASE x = 0 -> <<58, 58, 82, 101, 100>>
                                       [] x = 1 -> <<58, 58, 66, 108, 117, 101>>
                                       [] OTHER -> <<40>> \o DecOf(x) \o <<41>>))
    [] c = 14 -> End_(Begin_(st, 2, Empty, s[1] = 1), 2, 0, s[1] = 1)
    [] c = 15 -> Write(st, Void)
    [] c = 16 -> Write(st, BoolText(s, x))
    [] c = 17 -> Write(st, RuneText(s, x))

Fmt(a, p, s, st) ==
  CASE a[p] = 0 -> R(p + 3, Write(st, IntText(s, Y!FromLimbs(
                       <<a[p + 2], a[p + 1]>> \o (IF a[p + 1] > 32767 THEN <<65535, 65535>> ELSE <<0, 0>>), 1))))
    [] a[p] = 1 -> R(p + 2 + a[p + 1], Write(st, StrText(s, TextAt(a, p + 1))))
    [] a[p] = 2 -> R(p + 3 + a[p + 2], Write(st, Lossy(a[p + 1], TextAt(a, p + 2))))
    [] a[p] = 3 -> R(p + 2, Write(st, <<a[p + 1]>>))
    [] a[p] = 4 -> Fmt(a, p + 13, Under(s, SpecAt(a, p + 1)), st)
    [] a[p] = 5 -> Seqs(a, p + 2, a[p + 1], s, st)
    [] a[p] = 6 -> Block(a, p, s, st)
    [] a[p] = 7 -> LET t == Template(a[p + 1])
                       x == Fmt(a, p + 2, Under(s, t.s), Write(st, t.pre))
                   IN R(x.p, Write(x.st, t.post))
    [] a[p] = 8 -> Composite(a[p + 1], a[p + 2], a, p + 3, s, st)
    [] a[p] = 9 -> R(p + 4, Value_(a[p + 1], a[p + 2], a[p + 3], s, st))
Output(a) == Fmt(a, 1, DebugS, Start).st.out
=============================================================================
