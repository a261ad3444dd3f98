---------------------------- MODULE FmtTreeTrace ----------------------------
(* Trees of structured output, as the real formatter wrote them.             *)
EXTENDS FnTrace, FmtTree
Accept(e) == e.op = "tree" /\ Match(e, Ok(Bytes8(Output(e.a))))
Next == i <= Len(Trace) /\ i' = i + 1 /\ Accept(Trace[i])
=============================================================================
