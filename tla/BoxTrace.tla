------------------------------ MODULE BoxTrace ------------------------------
(* Recorded histories of boxes: what each must hold, and that it is the same *)
(* object as long as nothing makes a new one.                                *)
EXTENDS StateTrace, BoxDefs
Start == [w |-> <<BOff, BOff, BOff>>, ids |-> <<<<>>, <<>>, <<>>>>]
Dyn == IOEnv.DYN = "1"
Shows(x, id, r) ==
  /\ r.on = x.on
  /\ r.n = Len(x.s) /\ r.val = x.s
  /\ r.ty = (IF Dyn THEN x.ty ELSE 0)
  /\ r.tw = (IF ~Dyn \/ x.on # 1 THEN 0 ELSE IF x.ty = 3 THEN -x.s[1] ELSE 2 * x.s[1])
  /\ (id # <<>> => r.id = id)
Judge(st0, ev) ==
  LET a == IF Len(ev.a) = 1 THEN ev.a \o <<0>> ELSE ev.a
      o == BoxApply(st0.w, ev.op, a)
      ids == Ids(st0.ids, st0.w, ev.op, a)
      ok == /\ ev.k = o.k /\ ev.v = o.v
            /\ \A j \in 1..3 : Shows(o.w[j], ids[j], ev.s.r[j])
  IN [ok |-> ok, want |-> <<o.k, o.v, o.w, ids>>,
      st |-> [w |-> o.w, ids |-> IF ok THEN [j \in 1..3 |-> ev.s.r[j].id] ELSE ids]]
Init == Begin(Start)
Next == Walk(Start, Judge)
=============================================================================
