---------------------------- MODULE MallocTrace ----------------------------
(* Recorded histories of the allocator. A block is <<hi, lo, size>>: its     *)
(* address in two parts and its size; <<>> where there is none.              *)
EXTENDS StateTrace
Start == [j \in 1..8 |-> <<>>]
M == 16777216
Pow(n) == 2 ^ n
\* Whether block b ends before block d begins.
Before(b, d) == \/ d[1] - b[1] > 1
                \/ d[1] - b[1] = 1 /\ b[2] + b[3] <= M + d[2]
                \/ d[1] = b[1] /\ b[2] + b[3] <= d[2]
Apart(b, d) == b = <<>> \/ d = <<>> \/ Before(b, d) \/ Before(d, b)
Placed(s, j, b, align) ==
  /\ b[2] % Pow(align) = 0
  /\ b[1] + b[2] > 0
  /\ \A o \in 1..8 : o # j => Apart(s[o], b)
Min(x, y) == IF x < y THEN x ELSE y
\* a: slot, size, log of alignment, pattern. v: address, bytes found in order.
Judge(s, e) ==
  LET j == e.a[1] + 1
      b == IF e.op = "dealloc" \/ e.k # "ok" THEN <<>> ELSE <<e.v[1], e.v[2], e.a[2]>>
      ok == e.k = "ok" /\
            CASE e.op = "alloc" -> Placed(s, j, b, e.a[3])
              [] e.op = "zalloc" -> Placed(s, j, b, e.a[3]) /\ e.v[3] = e.a[2]
              [] e.op = "realloc" -> Placed(s, j, b, e.a[3]) /\ e.v[3] = Min(s[j][3], e.a[2])
              [] e.op = "dealloc" -> e.v = <<s[j][3]>>
  IN IF e.op = "huge" THEN [ok |-> e.k = "crash", want |-> "crash", st |-> s]
     ELSE [ok |-> ok, want |-> "apart, aligned, kept", st |-> [s EXCEPT ![j] = b]]
Init == Begin(Start)
Next == Walk(Start, Judge)
=============================================================================
