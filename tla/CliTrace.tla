------------------------------ MODULE CliTrace ------------------------------
(* Argument vectors parsed by the real parser under generated declarations.  *)
(* parse: a = <<declaration, number of arguments, (length, bytes)...>>.      *)
EXTENDS FnTrace, CliDefs
Decls == ndJsonDeserialize(IOEnv.DECLS)
RECURSIVE Args(_, _, _)
Args(a, p, n) == IF n = 0 THEN <<>>
                 ELSE <<SubSeq(a, p + 1, p + a[p])>> \o Args(a, p + a[p] + 1, n - 1)
RECURSIVE Flat(_)
Flat(vs) == IF vs = <<>> THEN <<>> ELSE <<Len(Head(vs))>> \o Head(vs) \o Flat(Tail(vs))
RECURSIVE Slots(_)
Slots(vs) == IF vs = <<>> THEN <<>> ELSE <<Len(Head(vs))>> \o Flat(Head(vs)) \o Slots(Tail(vs))
Accept(e) ==
  LET st == Run(Decls[e.a[1] + 1], Args(e.a, 3, e.a[2]))
  IN CASE st.r = 1 -> Match(e, Ok(Slots(st.vals)))
       [] st.r = 2 -> Match(e, Err)
       [] st.r = 3 -> Match(e, [k |-> "help", v |-> <<st.m>>])
       [] OTHER -> Judge(e.k \in {"ok", "err", "help"}, "parsed or refused")
Next == i <= Len(Trace) /\ i' = i + 1 /\ Accept(Trace[i])
=============================================================================
