---------------------------- MODULE VecLifeTrace ----------------------------
(* The same histories against the lives of the elements: what the log tells  *)
(* of constructions, copies, moves and destructions must be possible, and    *)
(* the objects alive between two operations are those the vectors hold.      *)
EXTENDS StateTrace, LifeDefs
Held(s) == UNION {{<<j, m>> : m \in 1..Len(s.r[j].id)} : j \in 1..Len(s.r)}
Judge(w, ev) ==
  IF ev.k = "crash" THEN [ok |-> TRUE, want |-> "any", st |-> w]
  ELSE LET u == Replay(w, ev.s.life, 1)
           places == Held(ev.s)
           Id(p) == ev.s.r[p[1]].id[p[2]]
           ok == /\ ev.k \in {"ok", "none"}
                 /\ u.ok
                 /\ Alive(u) = {Id(p) : p \in places}
                 /\ Cardinality(places) = Cardinality(Alive(u))
                 /\ \A p \in places : u.obj[Id(p)] = ev.s.r[p[1]].val[p[2]]
                 /\ \A j \in 1..Len(ev.s.r) : ev.s.r[j].n = Len(ev.s.r[j].id)
       IN [ok |-> ok, want |-> <<u.ok, u.at, u.obj>>, st |-> u]
Init == Begin(World0)
Next == Walk(World0, Judge)
=============================================================================
