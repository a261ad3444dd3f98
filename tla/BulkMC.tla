------------------------------- MODULE BulkMC -------------------------------
(* The element-by-element algorithm for overlapping transfers, one element   *)
(* per step, against the transfer through a temporary: right for every       *)
(* overlap exactly when it starts from the end the elements are shifted      *)
(* towards. Objects are relocated: the source slot becomes raw.              *)
EXTENDS BulkDefs
CONSTANTS N, Careful
VARIABLES s0, s, dst, src, k, done
vars == <<s0, s, dst, src, k, done>>
Start == [j \in 1..N |-> IF j \in Rng(src, k) THEN j ELSE IF j \in Rng(dst, k) THEN Raw ELSE 100 + j]
Init == /\ dst \in 0..(N - 1) /\ src \in 0..(N - 1)
        /\ k \in 0..(N - 1) /\ dst + k <= N /\ src + k <= N
        /\ s0 = Start /\ s = Start /\ done = 0
Backward == Careful /\ src < dst
Index == IF Backward THEN k - done ELSE done + 1
Next == /\ done < k /\ done' = done + 1
        /\ s' = [s EXCEPT ![dst + Index] = s[src + Index], ![src + Index] = IF dst = src THEN @ ELSE Raw]
        /\ UNCHANGED <<s0, dst, src, k>>
Right == done = k => s = RelocateOp(s0, dst, src, k)
\* No step reads a raw slot or constructs over a live one.
Safe == done < k => /\ s[src + Index] # Raw
                    /\ dst # src => s[dst + Index] = Raw
Spec == Init /\ [][Next]_vars
=============================================================================
