-------------------------------- MODULE BufMC --------------------------------
(* Histories of text buffers, exhaustively within bounds. Below them are     *)
(* buffers of bare units, changed one code point at a time as the code does  *)
(* it, with what was pushed so far taken back on failure.                    *)
EXTENDS BufDefs, TLC, Json
CONSTANTS E, Regs, Max, Emit, Mutant
VARIABLES w, u
vars == <<w, u>>
R == 1..Regs
Init == w = [r \in R |-> NoBuf] /\ u = [r \in R |-> <<>>]
\* Code points on the edges of the encodings, small and large.
Chars == {97, 233, 65536}
Ill == CASE E \in {Utf8, Wtf8} -> <<195>> [] E = Utf16 -> <<55296>> [] OTHER -> <<200>>
Arg(t) == <<Len(t)>> \o t
Strings == {<<Utf8, 0>> \o Arg(EncAll(Utf8, <<97, 233>>)), <<Utf16, 1>> \o Arg(<<97>>),
            <<Utf16, 1>> \o Arg(EncAll(Utf16, <<65536>>)),
            <<Utf32, 2>> \o Arg(<<97, 65536>>), <<Utf16, 0>> \o Arg(<<56320>>),
            <<E, 0>> \o Arg(Ill), <<E, 1>> \o Arg(<<97, 97>>), <<E, 2>> \o Arg(<<98>>)}
Units == {<<>>, <<97>>, Ill, <<97>> \o Ill}
\* One code point at a time.
RECURSIVE Stepwise(_, _, _)
Stepwise(mark, x, r) ==
  IF r = <<>> THEN x
  ELSE IF Admits(E, Head(r)) THEN Stepwise(mark, x \o Enc(E, Head(r)), Tail(r))
  ELSE IF Mutant THEN x ELSE SubSeq(x, 1, mark)
Pushed(x, r) == Stepwise(Len(x), x, r)
Do(r) == \E o \in
  LET z == r - 1
      have == {q \in R : w[q].on = 1}
      n == Len(EncAll(E, w[r].r))
  IN {<<"new", <<z, al>>>> : al \in {0, 1, 2}}
     \cup {<<op, <<z, al>> \o Arg(t)>> : op \in {"from", "frombuf"}, al \in {1, 2}, t \in Units}
     \cup {<<"fromnul", <<z, al>> \o Arg(IF t = <<>> THEN t ELSE t \o <<0>>)>> : al \in {1, 2}, t \in Units}
     \cup {<<"trans", <<z, al>> \o t>> : al \in {1, 2}, t \in Strings}
     \cup {<<op, <<z, q - 1>>>> : op \in {"copyn", "moven"}, q \in have \ {r}}
     \cup (IF w[r].on = 0 THEN {} ELSE
           {<<op, <<z>> \o t>> : op \in {"push", "lossy"}, t \in Strings}
           \cup {<<op, <<z, c>>>> : op \in {"pushr", "lossyr"}, c \in Chars \cup {55296}}
           \cup {<<op, <<z, q - 1>>>> : op \in {"pushb", "lossyb", "copya", "movea"}, q \in have}
           \cup {<<"trunc", <<z, k>>>> : k \in 0..(n + 1)}
           \cup {<<"clear", <<z, 0>>>>, <<"drop", <<z, 0>>>>, <<"buf", <<z, 0>>>>, <<"reserve", <<z, 40>>>>,
                 <<"runes", <<z, 0>>>>}) :
  LET e == BufApply(E, w, o[1], o[2])
      a == o[2]
      q == (a[2] % Regs) + 1
      given == IF e.k = "none" \/ e.k = "crash" THEN u
               ELSE IF o[1] = "push" THEN [u EXCEPT ![r] = Pushed(@, StringAt(a, 2))]
               ELSE IF o[1] = "pushr" THEN [u EXCEPT ![r] = Pushed(@, <<a[2]>>)]
               ELSE IF o[1] = "pushb" THEN [u EXCEPT ![r] = @ \o u[q]]
               ELSE IF o[1] = "lossy" THEN [u EXCEPT ![r] = Pushed(@, Lossy(E, StringAt(a, 2)))]
               ELSE IF o[1] = "lossyr" THEN [u EXCEPT ![r] = Pushed(@, Lossy(E, <<a[2]>>))]
               ELSE IF o[1] = "lossyb" THEN [u EXCEPT ![r] = @ \o u[q]]
               ELSE IF o[1] = "trunc" THEN [u EXCEPT ![r] = IF a[2] < Len(@) THEN SubSeq(@, 1, a[2]) ELSE @]
               ELSE IF o[1] \in {"clear", "buf", "drop", "new"} THEN [u EXCEPT ![r] = <<>>]
               ELSE IF o[1] \in {"from", "frombuf"} THEN [u EXCEPT ![r] = ListAt(a, 3)]
               ELSE IF o[1] = "fromnul" THEN [u EXCEPT ![r] = UpToNul(ListAt(a, 3))]
               ELSE IF o[1] = "trans" THEN [u EXCEPT ![r] = Pushed(<<>>, StringAt(a, 3))]
               ELSE IF o[1] \in {"copyn", "copya"} THEN [u EXCEPT ![r] = u[q]]
               ELSE IF o[1] \in {"moven", "movea"} /\ r # q THEN [u EXCEPT ![r] = u[q], ![q] = <<>>]
               ELSE u
  IN /\ \A x \in R : Len(e.w[x].r) <= Max
     /\ w' = e.w /\ u' = given
     /\ IF Emit THEN PrintT(<<"EDGE", ToJson(<<<<w, 0>>, o[1], o[2], <<w', 0>>>>)>>) ELSE TRUE
Next == \E r \in R : Do(r)
\* What is held is validly encoded, and is what the history describes.
Holds == \A r \in R : /\ AllAdmit(E, w[r].r)
                      /\ Valid(E, u[r]) /\ u[r] = EncAll(E, w[r].r) /\ Runes(E, u[r]) = w[r].r
=============================================================================
