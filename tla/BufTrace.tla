------------------------------ MODULE BufTrace ------------------------------
(* Recorded histories of text buffers. Next to what each must hold is how    *)
(* much it can hold without moving, which some operations must not change.   *)
EXTENDS StateTrace, BufDefs
E == atoi(IOEnv.ENC)
Start == [w |-> <<NoBuf, NoBuf, NoBuf>>, cap |-> <<0, 0, 0>>, al |-> <<0, 0, 0>>]
Shows(x, r) ==
  LET u == EncAll(E, x.r)
  IN /\ r.on = x.on /\ r.val = u /\ r.rv = u /\ r.n = Len(u)
     /\ r.empty = B(u = <<>>) /\ r.nn = 1 /\ r.cap >= r.n
\* Which allocator each buffer has.
Allocs(al, ev) ==
  LET r == ev.a[1] + 1
      q == (ev.a[2] % 3) + 1
  IN CASE ev.op \in {"new", "from", "frombuf", "fromtext", "fromnul", "wrap", "wrappre", "lit", "trans"} /\ ev.k = "ok"
            -> [al EXCEPT ![r] = ev.a[2]]
       [] ev.op \in {"copyn", "moven", "movea"} -> [al EXCEPT ![r] = al[q]]
       [] OTHER -> al
Judge(s, ev) ==
  LET a == IF Len(ev.a) = 1 THEN ev.a \o <<0>> ELSE ev.a
      o == BufApply(E, s.w, ev.op, a)
      z == a[1] + 1
      al == Allocs(s.al, [op |-> ev.op, a |-> a, k |-> ev.k])
      seen == IF ev.k = "crash" THEN <<>> ELSE ev.s.r
      v == IF ev.op = "buf" THEN <<s.al[z]>> \o o.v ELSE o.v
      ok == /\ ev.k = o.k
            /\ ev.k = "crash" \/
               (/\ ev.v = v
                /\ \A j \in 1..3 : Shows(o.w[j], seen[j])
                /\ \A j \in 1..3 : seen[j].inst = o.w[j].on * al[j]
                /\ (ev.op \in {"clear", "trunc"} => seen[z].cap = s.cap[z])
                /\ (ev.op = "reserve" => seen[z].cap >= seen[z].n + a[2]))
  IN [ok |-> ok, want |-> <<o.k, v, [j \in 1..3 |-> EncAll(E, o.w[j].r)], al>>,
      st |-> [w |-> o.w, cap |-> IF ev.k = "crash" THEN s.cap ELSE [j \in 1..3 |-> seen[j].cap], al |-> al]]
Init == Begin(Start)
Next == Walk(Start, Judge)
=============================================================================
