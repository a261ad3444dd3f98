------------------------------ MODULE FnTrace ------------------------------
(* Trace skeleton for operations without state: every recorded call must be  *)
(* one the specification allows. The extending module defines, for an event, *)
(* the set of admissible outcomes and calls Step with the verdict.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == i = 1
Ok(v)  == [k |-> "ok", v |-> v]
None   == [k |-> "none", v |-> <<>>]
Err    == [k |-> "err", v |-> <<>>]
Crash  == [k |-> "crash", v |-> <<>>]
Got(e) == [k |-> e.k, v |-> e.v]
\* Judge one event against the outcome the specification requires.
Match(e, want) == IF e.k = want.k /\ e.v = want.v THEN TRUE
                  ELSE PrintT(<<"MISMATCH", i, want>>)
Judge(ok, want) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", i, want>>)
Done == /\ TLCGet("stats").diameter - 1 = Len(Trace)
        /\ PrintT("TRACE-DONE")
=============================================================================
