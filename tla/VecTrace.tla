------------------------------ MODULE VecTrace ------------------------------
(* Recorded histories of vectors against the sequences they must hold.       *)
EXTENDS StateTrace, VecDefs
Start == <<Off, Off, Off>>
\* What a register shows of itself, given what it must hold.
Shows(x, r) ==
  /\ r.on = x.on
  /\ r.n = Len(x.s) /\ r.empty = B(x.s = <<>>) /\ r.val = x.s
  /\ (x.on = 1 => r.cap >= Len(x.s))
\* What requests for capacity promise, beyond keeping the elements.
Promises(ev, w) ==
  LET r == ev.s.r[ev.a[1] + 1]
  IN CASE ev.op = "reserve" -> r.cap >= r.n + ev.a[2]
       [] ev.op = "resize" -> r.cap >= ev.a[2]
       [] ev.op = "shrink" -> r.inl = 1 \/ r.cap = r.n
       [] ev.op = "spill" -> r.cap >= ev.a[2] /\ (ev.a[2] > 0 /\ ev.a[2] >= r.n => r.inl = 0)
       [] ev.op = "box" -> r.inl = 1 \/ r.cap = r.n
       [] OTHER -> TRUE
Judge(w, ev) ==
  LET o == Apply(w, ev.op, ev.a)
      ok == /\ ev.k = o.k /\ (IF ev.op = "box" THEN SubSeq(ev.v, 1, 2) = o.v ELSE ev.v = o.v)
            /\ ev.k = "crash" \/ ((\A j \in 1..Len(w) : Shows(o.w[j], ev.s.r[j])) /\ Promises(ev, w))
  IN [ok |-> ok, want |-> <<o.k, o.v, o.w>>, st |-> o.w]
Init == Begin(Start)
Next == Walk(Start, Judge)
=============================================================================
