------------------------------ MODULE FmtDefs ------------------------------
(* Format templates, as documented:                                          *)
(*   '{'[num][':'['!'][[fill]align]['#']['0'][width]['.' prec][method]['?']]'}'*)
(* A template is a sequence of bytes; its meaning is a sequence of pieces:   *)
(* literal text and placeholders. A placeholder has an argument number and a *)
(* specifier, the tuple                                                      *)
(*   <<alt, debug, zero, forward, align (0 none, 1 < 2 ^ 3 >), fill,         *)
(*     width high, low, has precision, precision high, low, method>>         *)
(* with numbers in two halves of 16 bits (TLC's integers are signed).        *)
EXTENDS Integers, Sequences, TLC
Z == INSTANCE Big

Default == <<0, 0, 0, 0, 0, 32, 0, 0, 0, 0, 0, 0>>
Plain == Default
Debug == [Default EXCEPT ![2] = 1]
Forward == [Default EXCEPT ![2] = 1, ![4] = 1]
IsNum(c) == c >= 48 /\ c <= 57
IsLetter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
AlignOf(c) == CASE c = 60 -> 1 [] c = 94 -> 2 [] c = 62 -> 3 [] OTHER -> 0
At(t, p) == IF p <= Len(t) THEN t[p] ELSE -1

RECURSIVE EndOfNum(_, _)
EndOfNum(t, p) == IF IsNum(At(t, p)) THEN EndOfNum(t, p + 1) ELSE p
RECURSIVE Decimal(_, _)
Decimal(ds, acc) == IF ds = <<>> THEN acc
                    ELSE Decimal(Tail(ds), Z!NAdd(Z!NMulSmall(acc, 10), Z!NSmall(Head(ds) - 48)))
NumOf(t, p, q) == Decimal(SubSeq(t, p, q - 1), <<>>)
Limit == <<255, 255, 255, 255>>
InRange(n) == Z!NCmp(n, Limit) < 0
Half(n) == <<Z!D(n, 4) * 256 + Z!D(n, 3), Z!D(n, 2) * 256 + Z!D(n, 1)>>

Refused == [r |-> 0, p |-> 0, n |-> <<0, 0>>, own |-> FALSE, s |-> Default]
Open == [Refused EXCEPT !.r = 2]     \* left open by the documentation
Take(p, n, own, s) == [r |-> 1, p |-> p, n |-> n, own |-> own, s |-> s]

\* The options after the colon, from position p; n and own describe the
\* argument number.
Options(t, p, n, own) ==
  LET fill == AlignOf(At(t, p + 1)) # 0 /\ p + 1 <= Len(t)
      al == IF fill THEN AlignOf(t[p + 1]) ELSE AlignOf(At(t, p))
      p1 == IF fill THEN p + 2 ELSE IF al # 0 THEN p + 1 ELSE p
      alt == At(t, p1) = 35
      p2 == IF alt THEN p1 + 1 ELSE p1
      zero == At(t, p2) = 48
      p3 == IF zero THEN p2 + 1 ELSE p2
      p4 == EndOfNum(t, p3)
      width == NumOf(t, p3, p4)
      hasw == p4 > p3
      dot == At(t, p4) = 46
      p5 == IF dot THEN EndOfNum(t, p4 + 1) ELSE p4
      prec == IF dot THEN NumOf(t, p4 + 1, p5) ELSE <<>>
      meth == IsLetter(At(t, p5))
      p6 == IF meth THEN p5 + 1 ELSE p5
      dbg == At(t, p6) = 63
      p7 == IF dbg THEN p6 + 1 ELSE p6
      w == Half(width) pr == Half(prec)
  IN IF At(t, p) = 33 THEN IF At(t, p + 1) = 125 THEN Take(p + 2, n, own, Forward) ELSE Open
     \* What stands for a fill is not documented; one printable character
     \* that is not a brace certainly may.
     ELSE IF fill /\ (t[p] \in {123, 125} \/ t[p] > 126 \/ t[p] < 32) THEN Open
     ELSE IF At(t, p) > 126 THEN Open
     ELSE IF al # 0 /\ zero THEN Refused
     ELSE IF hasw /\ (~InRange(width) \/ width = <<>>) THEN Refused
     ELSE IF ~hasw /\ (al # 0 \/ zero) THEN Refused
     ELSE IF dot /\ (p5 = p4 + 1 \/ prec = Limit) THEN Open
     ELSE IF dot /\ ~InRange(prec) THEN Refused
     ELSE IF At(t, p7) # 125 THEN Refused
     ELSE Take(p7 + 1, n, own,
               <<IF alt THEN 1 ELSE 0, IF dbg THEN 1 ELSE 0, IF zero THEN 1 ELSE 0, 0, al,
                 IF fill THEN t[p] ELSE 32, w[1], w[2], IF dot THEN 1 ELSE 0, pr[1], pr[2],
                 IF meth THEN t[p5] ELSE 0>>)

\* A placeholder whose opening brace is before position p; next is the number
\* an unnumbered placeholder takes.
Placeholder(t, p, next) ==
  LET q == EndOfNum(t, p)
      num == NumOf(t, p, q)
      own == q > p
      n == IF own THEN Half(num) ELSE <<0, next>>
  IN IF own /\ ~InRange(num) THEN Refused
     ELSE IF At(t, q) = 125 THEN Take(q + 1, n, own, Plain)
     ELSE IF At(t, q) = 58 THEN Options(t, q + 1, n, own)
     ELSE Refused

Lit(b) == [lit |-> TRUE, b |-> b, n |-> <<0, 0>>, own |-> FALSE, s |-> Default]
Hole(h) == [lit |-> FALSE, b |-> <<>>, n |-> h.n, own |-> h.own, s |-> h.s]
\* Adjacent literal text is one piece.
Put(ps, b) == IF ps # <<>> /\ ps[Len(ps)].lit THEN [ps EXCEPT ![Len(ps)].b = @ \o b]
              ELSE Append(ps, Lit(b))
RECURSIVE ParseFrom(_, _, _, _)
ParseFrom(t, p, next, ps) ==
  IF p > Len(t) THEN [r |-> 1, ps |-> ps]
  ELSE IF t[p] = 125
  THEN IF At(t, p + 1) = 125 THEN ParseFrom(t, p + 2, next, Put(ps, <<125>>))
       ELSE [r |-> 0, ps |-> <<>>]
  ELSE IF t[p] # 123 THEN ParseFrom(t, p + 1, next, Put(ps, <<t[p]>>))
  ELSE IF At(t, p + 1) = 123 THEN ParseFrom(t, p + 2, next, Put(ps, <<123>>))
  ELSE LET h == Placeholder(t, p + 1, next)
       IN IF h.r # 1 THEN [r |-> h.r, ps |-> <<>>]
          ELSE ParseFrom(t, h.p, IF h.own THEN next ELSE next + 1, Append(ps, Hole(h)))
Parse(t) == ParseFrom(t, 1, 0, <<>>)

(***************************************************************************)
(* Which arguments fit. A query says what a type's formatting allows:      *)
(* <<requires debug, supports width, supports precision, methods>>.        *)
(***************************************************************************)
Methods(m) == CASE m = 0 -> {} [] m = 1 -> {98, 111, 120, 88} [] m = 2 -> {113} [] m = 3 -> {112}
                [] OTHER -> (65..90) \cup (97..122)
Fits(q, s) ==
  /\ q[1] = 1 => s[2] = 1
  /\ q[2] = 0 => s[7] = 0 /\ s[8] = 0
  /\ q[3] = 0 => s[9] = 0
  /\ s[12] # 0 => s[12] \in Methods(q[4])
Designates(h, qs) == h.n[1] = 0 /\ h.n[2] < Len(qs)
Accepts(ps, qs) == \A j \in 1..Len(ps) :
                     ps[j].lit \/ (Designates(ps[j], qs) /\ Fits(qs[ps[j].n[2] + 1], ps[j].s))

\* Flattened for comparison with what was recorded.
RECURSIVE Flatten(_)
Flatten(ps) == IF ps = <<>> THEN <<>>
               ELSE LET x == Head(ps)
                    IN (IF x.lit THEN <<0, Len(x.b)>> \o x.b ELSE <<1, x.n[1], x.n[2]>> \o x.s)
                       \o Flatten(Tail(ps))

(***************************************************************************)
(* Spelling out a specifier, for the laws.                                 *)
(***************************************************************************)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
If(b, x) == IF b THEN x ELSE <<>>
SpellSpec(s) ==
  IF s[4] = 1 THEN <<58, 33>>
  ELSE <<58>> \o If(s[5] # 0, (If(s[6] # 32, <<s[6]>>)) \o <<CASE s[5] = 1 -> 60 [] s[5] = 2 -> 94 [] OTHER -> 62>>)
       \o If(s[1] = 1, <<35>>) \o If(s[3] = 1, <<48>>) \o If(s[8] # 0, Digits(s[8]))
       \o If(s[9] = 1, <<46>> \o Digits(s[11])) \o If(s[12] # 0, <<s[12]>>) \o If(s[2] = 1, <<63>>)
RECURSIVE Double(_)
Double(b) == IF b = <<>> THEN <<>>
             ELSE (IF Head(b) \in {123, 125} THEN <<Head(b), Head(b)>> ELSE <<Head(b)>>) \o Double(Tail(b))
RECURSIVE Spell(_)
Spell(ps) == IF ps = <<>> THEN <<>>
             ELSE LET x == Head(ps)
                  IN (IF x.lit THEN Double(x.b)
                      ELSE <<123>> \o If(x.own, Digits(x.n[2]))
                           \o If(x.s # Plain, SpellSpec(x.s)) \o <<125>>)
                     \o Spell(Tail(ps))
=============================================================================
