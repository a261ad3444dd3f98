----------------------------- MODULE StateTrace -----------------------------
(* Trace skeleton for operations with state. The trace holds many histories, *)
(* each of which starts in the initial state. After a mismatch the rest of   *)
(* the history is skipped: the states have parted.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, st, skip
Trace == ndJsonDeserialize(IOEnv.TRACE)
Fresh(p) == p = 1 \/ Trace[p].h # Trace[p - 1].h
\* The extending module gives, for a state and an event, [ok, want, st].
Walk(start, Judge(_, _)) ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ IF skip /\ ~Fresh(i) THEN UNCHANGED <<st, skip>>
     ELSE LET o == Judge(IF Fresh(i) THEN start ELSE st, Trace[i])
          IN /\ st' = o.st
             /\ skip' = ~o.ok
             /\ IF o.ok THEN TRUE ELSE PrintT(<<"MISMATCH", i, o.want>>)
Begin(start) == i = 1 /\ st = start /\ skip = FALSE
Done == /\ TLCGet("stats").diameter - 1 = Len(Trace)
        /\ PrintT("TRACE-DONE")
=============================================================================
