------------------------------ MODULE FmtTrace ------------------------------
(* Templates read by the real parser, matched against argument lists, and    *)
(* carried out on recording arguments.                                       *)
EXTENDS FnTrace, FmtDefs
Open_ == {"ok", "none"}
Queries(a) == [j \in 1..a[1] |-> SubSeq(a, 4 * j - 2, 4 * j + 1)]
Bytes(a, p) == SubSeq(a, p + 1, p + a[p])
Yes(b) == Ok(<<IF b THEN 1 ELSE 0>>)

(***************************************************************************)
(* Carrying a template out. Argument k writes "@" and its letter and       *)
(* records the specifier it was given. An argument may itself be a pair of *)
(* a template and further arguments (a nested one), carried out with the   *)
(* specifier of its own placeholder in force, and restored afterwards.     *)
(* Arguments: <<0, letter>> or <<1, letter, template length, bytes,        *)
(* number of arguments, arguments...>>.                                    *)
(***************************************************************************)
Join(x, y) == [text |-> x.text \o y.text, log |-> x.log \o y.log]
Leaf(l, s) == [text |-> <<64, l>>, log |-> <<l>> \o s]
RECURSIVE ArgEnd(_, _), Skip(_, _, _)
ArgEnd(a, p) == IF a[p] = 0 THEN p + 2
                ELSE LET q == p + 2 IN Skip(a, q + a[q] + 2, a[q + a[q] + 1])
Skip(a, p, n) == IF n = 0 THEN p ELSE Skip(a, ArgEnd(a, p), n - 1)
RECURSIVE Run(_, _, _, _, _), Arg(_, _, _)
Run(ps, a, p, s, acc) ==
  IF ps = <<>> THEN acc
  ELSE LET x == Head(ps)
       IN Run(Tail(ps), a, p, s,
              Join(acc, IF x.lit THEN [text |-> x.b, log |-> <<>>]
                        ELSE Arg(a, Skip(a, p, x.n[2]), IF x.s[4] = 1 THEN s ELSE x.s)))
Arg(a, p, s) ==
  IF a[p] = 0 THEN Leaf(a[p + 1], s)
  ELSE LET q == p + 2
           r == Run(Parse(Bytes(a, q)).ps, a, q + a[q] + 2, s, [text |-> <<>>, log |-> <<>>])
       IN Join(r, Leaf(a[p + 1], s))
Carried(a) == LET r == Run(Parse(Bytes(a, 2)).ps, a, a[2] + 4, Debug, [text |-> <<>>, log |-> <<>>])
              IN Ok(<<Len(r.text)>> \o r.text \o r.log)

Accept(e) ==
  LET o == e.op a == e.a IN
  CASE o = "parse" -> LET r == Parse(Bytes(a, 1))
                      IN (CASE r.r = 1 -> Match(e, Ok(Flatten(r.ps)))
                            [] r.r = 0 -> Match(e, None)
                            [] OTHER -> Judge(e.k \in Open_, "read or refused"))
    [] o = "check" -> LET r == Parse(Bytes(a, 4 * a[1] + 2))
                      IN IF r.r = 2 THEN Judge(e.k = "ok", "accepted or refused")
                         ELSE Match(e, Yes(r.r = 1 /\ Accepts(r.ps, Queries(a))))
    \* The same question answered by the compiler: a[1] is the case.
    [] o = "static" -> LET r == Parse(Bytes(Tail(a), 4 * a[2] + 2))
                       IN Match(e, Yes(r.r = 1 /\ Accepts(r.ps, Queries(Tail(a)))))
    [] o = "run" -> Match(e, Carried(a))
Next == i <= Len(Trace) /\ i' = i + 1 /\ Accept(Trace[i])
=============================================================================
