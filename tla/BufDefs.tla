------------------------------ MODULE BufDefs ------------------------------
(* Text buffers: each holds a sequence of code points that its encoding      *)
(* admits, and shows exactly their standard encoding. What cannot be         *)
(* represented leaves it as it was, or is substituted, as asked.             *)
EXTENDS TextDefs

NoBuf == [on |-> 0, r |-> <<>>]
Buf(r) == [on |-> 1, r |-> r]

\* The code points of any units: an ill-formed unit stands for U+FFFD.
RECURSIVE ReadFrom(_, _, _)
ReadFrom(e, u, p) ==
  IF p > Len(u) THEN <<>>
  ELSE LET f == FrontOf(e, u, p - 1, Len(u))
       IN IF f[2] = 0 THEN <<Replacement>> \o ReadFrom(e, u, p + 1)
          ELSE <<f[1]>> \o ReadFrom(e, u, p + f[2])
Read(e, u) == ReadFrom(e, u, 1)
Substitute(e, c) == IF Admits(e, c) THEN c ELSE IF Admits(e, Replacement) THEN Replacement ELSE 63
Lossy(e, r) == [j \in 1..Len(r) |-> Substitute(e, r[j])]

\* Arguments: a list at p is its length and its items; a string, its encoding,
\* its guise and the list of its units.
ListAt(a, p) == SubSeq(a, p + 1, p + a[p])
StringAt(a, p) == Read(a[p], ListAt(a, p + 2))
UpToNul(u) == LET z == {j \in 1..Len(u) : u[j] = 0} IN IF z = {} THEN u ELSE SubSeq(u, 1, Least(z) - 1)
Alphabet == [j \in 1..26 |-> 96 + j]
Literals == <<<<>>, <<97, 98, 99>>, <<97, 0, 99>>, Alphabet>>

\* The code points between two offsets, or none if these are not boundaries.
CutAt(E, r, n) == LET os == Offsets(E, r) IN {j \in 0..Len(r) : os[j + 1] = n}
Cut(E, r, s, n) ==
  LET x == CutAt(E, r, s) y == CutAt(E, r, s + n)
  IN IF s < 0 \/ n < 0 \/ x = {} \/ y = {} THEN [ok |-> FALSE, r |-> <<>>]
     ELSE [ok |-> TRUE, r |-> SubSeq(r, Least(x) + 1, Least(y))]

Did(k, v, w) == [k |-> k, v |-> v, w |-> w]
BufApply(E, w, op, a) ==
  LET z == a[1] + 1
      q == (a[2] % Len(w)) + 1
      mine == w[z].r
      theirs == w[q].r
      With(r) == [w EXCEPT ![z] = Buf(r)]
      Made(r) == Did("ok", <<>>, With(r))
      MadeIf(u) == IF Valid(E, u) THEN Made(Runes(E, u)) ELSE Did("none", <<>>, w)
      MadeFrom(r) == IF AllAdmit(E, r) THEN Made(r) ELSE Did("none", <<>>, w)
      Push(r) == IF AllAdmit(E, r) THEN Did("ok", <<1>>, With(mine \o r)) ELSE Did("ok", <<0>>, w)
      Both(r) == Did("ok", <<B(mine = r), Cmp(mine, r, 1)>>, w)
  IN CASE op = "new" -> Made(<<>>)
       [] op \in {"from", "frombuf"} -> MadeIf(ListAt(a, 3))
       [] op \in {"fromtext", "wrap", "wrappre"} -> Made(Runes(E, ListAt(a, 3)))
       [] op = "fromnul" -> MadeIf(UpToNul(ListAt(a, 3)))
       [] op = "lit" -> Made(Literals[a[3] + 1])
       [] op = "trans" -> MadeFrom(StringAt(a, 3))
       [] op = "push" -> Push(StringAt(a, 2))
       [] op = "pushr" -> Push(<<a[2]>>)
       [] op = "pushb" -> Push(theirs)
       [] op = "lossy" -> Made(mine \o Lossy(E, StringAt(a, 2)))
       [] op = "lossyr" -> Made(mine \o Lossy(E, <<a[2]>>))
       [] op = "lossyb" -> Made(mine \o theirs)
       [] op = "trunc" -> (IF a[2] > Len(EncAll(E, mine)) THEN Made(mine)
                           ELSE LET c == Cut(E, mine, 0, a[2])
                                IN IF c.ok THEN Made(c.r) ELSE Did("crash", <<>>, w))
       [] op = "clear" -> Made(<<>>)
       [] op = "reserve" -> Made(mine)
       [] op = "drop" -> Did("ok", <<>>, [w EXCEPT ![z] = NoBuf])
       [] op \in {"copyn", "copya"} -> Made(theirs)
       [] op \in {"moven", "movea"} ->
            (IF z = q THEN Made(mine) ELSE Did("ok", <<>>, [w EXCEPT ![z] = Buf(theirs), ![q] = Buf(<<>>)]))
       [] op = "buf" -> Did("ok", EncAll(E, mine), With(<<>>))
       [] op \in {"idx", "at"} ->
            (LET c == Cut(E, mine, a[2], a[3])
             IN IF c.ok THEN Did("ok", <<a[2]>> \o EncAll(E, c.r), w)
                ELSE Did(IF op = "at" THEN "none" ELSE "crash", <<>>, w))
       [] op = "runes" -> (LET os == Offsets(E, mine)
                               at == [j \in 1..2 * Len(mine) |-> IF j % 2 = 1 THEN os[(j + 1) \div 2] ELSE mine[j \div 2]]
                           IN Did("ok", at \o mine, w))
       [] op = "cmp" -> Did("ok", <<B(mine = theirs), B(mine # theirs), Cmp(mine, theirs, 1)>>, w)
       [] op = "cmps" -> Both(StringAt(a, 2))
       [] op = "cmpr" -> Both(<<a[2]>>)
       [] op = "cmpu" -> Both(Read(E, ListAt(a, 2)))
=============================================================================
