----------------------------- MODULE LayoutDefs -----------------------------
(* Sizes and alignments of structures and unions of <<size, align>> members. *)
EXTENDS Integers, Sequences
Max(x, y) == IF x > y THEN x ELSE y
Up(n, a) == ((n + a - 1) \div a) * a
RECURSIVE Align(_), End(_, _), Widest(_)
Align(ms) == IF ms = <<>> THEN 1 ELSE Max(Head(ms)[2], Align(Tail(ms)))
End(ms, at) == IF ms = <<>> THEN at ELSE End(Tail(ms), Up(at, Head(ms)[2]) + Head(ms)[1])
Widest(ms) == IF ms = <<>> THEN 0 ELSE Max(Head(ms)[1], Widest(Tail(ms)))
Struct(ms) == IF ms = <<>> THEN <<1, 1>> ELSE <<Up(End(ms, 0), Align(ms)), Align(ms)>>
Union(ms) == IF ms = <<>> THEN <<1, 1>> ELSE <<Up(Widest(ms), Align(ms)), Align(ms)>>
=============================================================================
