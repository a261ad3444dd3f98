------------------------------ MODULE CliDefs ------------------------------
(* The command-line language, as a machine that reads an argument vector     *)
(* under a declaration.                                                      *)
(*                                                                           *)
(* A declaration is a tree of commands. A command has                        *)
(*   f  flags        [n: names, l: letter or 0, k: kind, w: shape, c: count, *)
(*                    s: slot]                                               *)
(*   g  groups       [n: names, l: letter or 0, flat: 0/1, d: command]       *)
(*   u  subcommands  [n: names, d: command]                                  *)
(*   p  positionals  [k, w, c, s]                                            *)
(*   m  a number that identifies it                                          *)
(* and the whole has `n` slots, one for each value to be filled in. Names    *)
(* are sequences of bytes, spelled with dashes.                              *)
EXTENDS Utf, TLC

Optional == 0  Required == 1  Repeated == 2
Dash == 45  Equals == 61  Dot == 46  Underscore == 95
HelpName == <<104, 101, 108, 112>>
HelpHidden == HelpName \o <<45, 104, 105, 100, 100, 101, 110>>
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
From(s, p) == SubSeq(s, p, Len(s))
Normal(s) == [j \in 1..Len(s) |-> IF s[j] = Underscore THEN Dash ELSE s[j]]
Named(x, s) == \E j \in 1..Len(x.n) : x.n[j] = s
Pick(S) == CHOOSE x \in S : TRUE

(***************************************************************************)
(* Values. A kind reads the bytes of an argument: <<>> if it cannot, or    *)
(* <<v>>.                                                                  *)
(***************************************************************************)
Bool == 0  I16 == 1  U8 == 2  Str == 3  Rune == 4  StrBuf == 5
WantsArg(k) == k # Bool
Digit(c) == IF c >= 48 /\ c <= 57 THEN c - 48
            ELSE IF c >= 97 /\ c <= 122 THEN c - 87
            ELSE IF c >= 65 /\ c <= 90 THEN c - 55 ELSE 99
\* Magnitudes stop at 2^16: every kind is narrower than that.
RECURSIVE Magnitude(_, _, _)
Magnitude(s, radix, acc) ==
  IF s = <<>> THEN <<acc>>
  ELSE IF Digit(Head(s)) >= radix THEN <<>>
  ELSE LET v == acc * radix + Digit(Head(s))
       IN Magnitude(Tail(s), radix, IF v > 65536 THEN 65536 ELSE v)
ReadInt(s, lo, hi) ==
  LET neg == Starts(s, <<45>>)
      u == IF neg \/ Starts(s, <<43>>) THEN Tail(s) ELSE s
      r == IF Starts(u, <<48, 120>>) THEN <<16, 3>> ELSE IF Starts(u, <<48, 98>>) THEN <<2, 3>>
           ELSE IF Starts(u, <<48, 111>>) THEN <<8, 3>>
           ELSE IF Starts(u, <<48>>) /\ Len(u) > 1 THEN <<8, 2>> ELSE <<10, 1>>
      b == From(u, r[2])
      m == IF b = <<>> THEN <<>> ELSE Magnitude(b, r[1], 0)
      v == IF m = <<>> THEN 0 ELSE IF neg THEN -m[1] ELSE m[1]
  IN IF m = <<>> \/ v < lo \/ v > hi THEN <<>> ELSE <<v>>
Truth == {<<>>, <<116, 114, 117, 101>>, <<116>>, <<121, 101, 115>>, <<121>>, <<111, 110>>}
Falsity == {<<102, 97, 108, 115, 101>>, <<102>>, <<110, 111>>, <<110>>, <<111, 102, 102>>}
Read(k, s) ==
  CASE k = Bool -> (IF s \in Truth THEN <<<<1>>>> ELSE IF s \in Falsity THEN <<<<0>>>>
                    ELSE LET v == ReadInt(s, 0, 1)
                         IN IF Digit(s[1]) < 10 /\ v # <<>> THEN <<v>> ELSE <<>>)
    [] k = I16 -> LET v == ReadInt(s, -32768, 32767) IN IF v = <<>> THEN <<>> ELSE <<v>>
    [] k = U8 -> LET v == ReadInt(s, 0, 255) IN IF v = <<>> THEN <<>> ELSE <<v>>
    [] k \in {Str, StrBuf} -> IF ValidFrom(Utf8, s, 1) THEN <<s>> ELSE <<>>
    [] k = Rune -> IF s # <<>> /\ Front(Wtf8, s)[2] = Len(s) THEN <<<<Front(Wtf8, s)[1]>>>> ELSE <<>>

\* Shapes: what a slot holds after one more value.
Plain == 0  Maybe == 1  Many == 2
Default(x) == IF x.w = Plain THEN <<x.def>> ELSE <<>>
Put(w, old, v) == IF w = Many THEN Append(old, v) ELSE <<v>>

(***************************************************************************)
(* Names. Looking a name up in a command: what it stands for is            *)
(* [t |-> "flag", f], [t |-> "group", d], [t |-> "help", d], or "none".    *)
(***************************************************************************)
Nothing == [t |-> "none"]
FlagOf(f) == [t |-> "flag", f |-> f]
GroupOf(d) == [t |-> "group", d |-> d]
HelpOf(d) == [t |-> "help", d |-> d]
Set(s) == {s[j] : j \in 1..Len(s)}
\* The letter of a flag or group, as UTF-8.
Letter(x) == Enc(Utf8, x.l)
IsHelp(s) == s = HelpName \/ s = HelpHidden \/ s = <<104>>
RECURSIVE Long(_, _, _)
Long(d, s, help) ==
  LET own == {FlagOf(f) : f \in {f \in Set(d.f) : Named(f, s) \/ (f.l # 0 /\ Letter(f) = s)}}
             \cup {GroupOf(g.d) : g \in {g \in Set(d.g) : g.flat = 0 /\ (Named(g, s) \/ (g.l # 0 /\ Letter(g) = s))}}
             \cup (IF help /\ IsHelp(s) THEN {HelpOf(d)} ELSE {})
      under(g) == IF g.flat = 1 THEN {Long(g.d, s, FALSE)}
                  ELSE {Long(g.d, From(s, Len(g.n[j]) + 2), TRUE) :
                          j \in {j \in 1..Len(g.n) : Starts(s, Append(g.n[j], Dot))}}
                       \cup (IF g.l # 0 /\ Starts(s, Letter(g))
                             THEN {Long(g.d, From(s, Len(Letter(g)) + 1), TRUE)} ELSE {})
      all == (own \cup UNION {under(g) : g \in Set(d.g)}) \ {Nothing}
  IN IF s = <<>> \/ all = {} THEN Nothing ELSE Pick(all)
\* What a letter stands for within a command.
RECURSIVE Short(_, _, _)
Short(d, c, help) ==
  LET own == {FlagOf(f) : f \in {f \in Set(d.f) : f.l = c}}
             \cup {GroupOf(g.d) : g \in {g \in Set(d.g) : g.flat = 0 /\ g.l = c}}
             \cup (IF help /\ c = 104 THEN {HelpOf(d)} ELSE {})
      all == (own \cup {Short(g.d, c, FALSE) : g \in {g \in Set(d.g) : g.flat = 1}}) \ {Nothing}
  IN IF all = {} THEN Nothing ELSE Pick(all)
\* The subcommand a name stands for: <<>> or <<command>>.
RECURSIVE Sub(_, _)
Sub(d, s) ==
  LET own == {<<u.d>> : u \in {u \in Set(d.u) : Named(u, s)}}
      under(g) == IF g.flat = 1 THEN {Sub(g.d, s)}
                  ELSE {Sub(g.d, From(s, Len(g.n[j]) + 2)) :
                          j \in {j \in 1..Len(g.n) : Starts(s, Append(g.n[j], Dot))}}
      all == (own \cup UNION {under(g) : g \in Set(d.g)}) \ {<<>>}
  IN IF all = {} THEN <<>> ELSE Pick(all)
\* Subcommands of groups with a letter have names nobody documented.
RECURSIVE OddSub(_, _)
OddSub(d, s) == \E g \in Set(d.g) :
  \/ g.flat = 1 /\ OddSub(g.d, s)
  \/ g.flat = 0 /\ \E j \in 1..Len(g.n) : Starts(s, Append(g.n[j], Dot)) /\ OddSub(g.d, From(s, Len(g.n[j]) + 2))
  \/ g.flat = 0 /\ g.l # 0 /\ Starts(s, Append(Letter(g), Dot))
\* Nor are flags of such groups documented to be "X.name".
RECURSIVE OddFlag(_, _)
OddFlag(d, s) == \E g \in Set(d.g) :
  \/ g.flat = 1 /\ OddFlag(g.d, s)
  \/ g.flat = 0 /\ \E j \in 1..Len(g.n) : Starts(s, Append(g.n[j], Dot)) /\ OddFlag(g.d, From(s, Len(g.n[j]) + 2))
  \/ g.flat = 0 /\ g.l # 0 /\ (\/ Starts(s, Append(Letter(g), Dot))
                               \/ Starts(s, Letter(g)) /\ OddFlag(g.d, From(s, Len(Letter(g)) + 1)))

\* Everything that a command requires, its groups included.
RECURSIVE Flags(_)
Flags(d) == Set(d.f) \cup UNION {Flags(g.d) : g \in Set(d.g)}

(***************************************************************************)
(* The machine. r is 0 while it reads; then 1 accepted, 2 rejected, 3 help *)
(* was asked for (of command m), 4 something the documentation leaves      *)
(* open.                                                                   *)
(***************************************************************************)
Start(D) == [r |-> 0, m |-> 0, at |-> 1, ended |-> FALSE, path |-> <<D.d>>, pos |-> <<0>>,
             seen |-> [j \in 1..D.n |-> 0], vals |-> [j \in 1..D.n |-> D.def[j]]]
Reject(st) == [st EXCEPT !.r = 2]
Open(st) == [st EXCEPT !.r = 4]
Help(st, d) == [st EXCEPT !.r = 3, !.m = d.m]
\* One more occurrence of x (a flag or positional) with the argument s.
Give(st, x, s) ==
  LET v == Read(x.k, s)
  IN IF (st.seen[x.s] > 0 /\ x.c # Repeated) \/ v = <<>> THEN Reject(st)
     ELSE [st EXCEPT !.seen[x.s] = @ + 1, !.vals[x.s] = Put(x.w, @, v[1])]
Token(a, st) == a[st.at]
\* <<the part before the first "=", whether there is one, the rest>>
RECURSIVE EqFrom(_, _)
EqFrom(s, p) == IF p > Len(s) THEN <<s, FALSE, <<>>>>
                ELSE IF s[p] = Equals THEN <<SubSeq(s, 1, p - 1), TRUE, From(s, p + 1)>>
                ELSE EqFrom(s, p + 1)
Split(s) == EqFrom(s, 1)
Take(st) == [st EXCEPT !.at = @ + 1]

\* The flag f, with an argument or without.
Set1(a, st, f, has, s) ==
  IF has \/ ~WantsArg(f.k) THEN Give(st, f, s)
  ELSE IF st.seen[f.s] > 0 /\ f.c # Repeated THEN Reject(st)
  ELSE IF st.at > Len(a) THEN Reject(st)
  ELSE Give(Take(st), f, Token(a, st))
RECURSIVE Name(_, _, _, _, _, _), SubFlag(_, _, _, _)
\* The name s, within the command d, perhaps with an argument.
Name(a, st, d, s, has, v) ==
  LET n == Normal(s)
      x == Long(d, n, TRUE)
  IN IF x.t = "none" THEN IF OddFlag(d, n) THEN Open(st) ELSE Reject(st)
     ELSE IF x.t = "help" THEN IF has THEN Open(st) ELSE Help(st, x.d)
     ELSE IF x.t = "group" THEN SubFlag(a, st, x.d, has)
     ELSE Set1(a, st, x.f, has, v)
\* The next argument names a flag of the group d.
SubFlag(a, st, d, has) ==
  IF has \/ st.at > Len(a) THEN Reject(st)
  ELSE LET p == Split(Token(a, st)) IN Name(a, Take(st), d, p[1], p[2], p[3])
\* Letters. `first`: no letter of this argument has meant anything yet.
RECURSIVE Letters(_, _, _, _, _, _, _)
Letters(a, st, d, s, has, v, grouped) ==
  IF st.r # 0 THEN st
  ELSE
  LET c == Front(Wtf8, s)
      rest == From(s, c[2] + 1)
      last == rest = <<>>
      x == IF c = NoRune THEN Nothing
           ELSE IF c[1] = Underscore THEN Short(d, Dash, TRUE) ELSE Short(d, c[1], TRUE)
      whole == Long(d, Normal(s), TRUE)
  IN \* After a group's letter, the rest names one of its flags...
     IF grouped /\ ~last /\ x.t # "none" /\ (whole.t # "none" \/ OddFlag(d, Normal(s))) THEN Open(st)
     ELSE IF grouped /\ x.t = "none" THEN Name(a, st, d, s, has, v)
     \* ... but nothing says what a single dash before a long name is.
     ELSE IF x.t = "none" THEN IF whole.t # "none" \/ OddFlag(d, Normal(s)) THEN Open(st) ELSE Reject(st)
     ELSE IF x.t = "help" THEN IF has /\ last THEN Open(st) ELSE Help(st, x.d)
     ELSE IF x.t = "group" THEN IF last THEN SubFlag(a, st, x.d, has)
                                ELSE Letters(a, st, x.d, rest, has, v, TRUE)
     ELSE IF last THEN Set1(a, st, x.f, has, v)
     ELSE IF WantsArg(x.f.k) THEN IF Long(d, Normal(s), TRUE).t # "none" \/ OddFlag(d, Normal(s)) THEN Open(st) ELSE Reject(st)
     ELSE Letters(a, Give(st, x.f, <<>>), d, rest, has, v, FALSE)

Top(st) == st.path[Len(st.path)]
Positional(st, s) ==
  LET d == Top(st)
      j == st.pos[Len(st.pos)] + 1
  IN IF j > Len(d.p) THEN Reject(st)
     ELSE LET x == Give(st, d.p[j], s)
          IN IF d.p[j].c = Repeated THEN x ELSE [x EXCEPT !.pos[Len(st.pos)] = j]
Plainly(st, s) ==
  LET d == Top(st)
      x == Sub(d, Normal(s))
  IN IF OddSub(d, Normal(s)) THEN Open(st)
     ELSE IF x = <<>> THEN Positional(st, s)
     ELSE IF st.ended THEN Open(st)
     ELSE [st EXCEPT !.path = Append(@, x[1]), !.pos = Append(@, 0)]
Finish(D, st) ==
  IF \E j \in 1..Len(st.path) :
       LET d == st.path[j]
       IN \/ \E f \in Flags(d) : f.c = Required /\ st.seen[f.s] = 0
          \/ \E k \in 1..Len(d.p) : d.p[k].c = Required /\ st.seen[d.p[k].s] = 0
  THEN Reject(st) ELSE [st EXCEPT !.r = 1]
\* Reads the next argument, and those that belong to it.
Step(D, a, st) ==
  IF st.at > Len(a) THEN Finish(D, st)
  ELSE
  LET s == Token(a, st)
      t == Take(st)
      p == Split(s)
  IN IF st.ended \/ s = <<>> \/ s[1] # Dash \/ s = <<Dash>> THEN Plainly(t, s)
     ELSE IF s = <<Dash, Dash>> THEN [t EXCEPT !.ended = TRUE]
     ELSE IF s[2] = Dash THEN Name(a, t, Top(st), From(p[1], 3), p[2], p[3])
     ELSE IF Len(p[1]) = 1 THEN Reject(t)
     ELSE Letters(a, t, Top(st), From(p[1], 2), p[2], p[3], FALSE)
RECURSIVE RunFrom(_, _, _)
RunFrom(D, a, st) == IF st.r # 0 THEN st ELSE RunFrom(D, a, Step(D, a, st))
Run(D, a) == RunFrom(D, a, Start(D))
=============================================================================
