----------------------------- MODULE CodecTrace -----------------------------
(* Encoding, decoding, validation and boundaries, against Utf.               *)
EXTENDS FnTrace, Utf

B(x) == IF x THEN 1 ELSE 0
\* scan: a = <<e, n, units>>; v = <<valid, front cp, front len, back cp, back len>>
Scan(a) == LET e == a[1] u == SubSeq(a, 3, 2 + a[2])
           IN Ok(<<B(Valid(e, u))>> \o Front(e, u) \o Back(e, u))
\* encode: a = <<e, cp, room>>
Encode(a) == IF Admits(a[1], a[2]) /\ Len(Enc(a[1], a[2])) <= a[3]
             THEN Ok(Enc(a[1], a[2])) ELSE Err
Size(a) == IF Admits(a[1], a[2]) THEN Ok(<<Len(Enc(a[1], a[2]))>>) ELSE Err
\* block: a = <<e, first, count>>; v lists, per code point, the number of units
\* (0 if refused), the units, and what they decode to forwards and backwards.
RECURSIVE BlockOk(_, _, _, _, _)
BlockOk(e, c, last, v, p) ==
  IF c > last THEN p = Len(v) + 1
  ELSE LET x == IF Admits(e, c) THEN Enc(e, c) ELSE <<>>
           want == <<Len(x)>> \o x \o (IF x = <<>> THEN <<>> ELSE <<c, c>>)
       IN /\ p + Len(want) - 1 <= Len(v)
          /\ SubSeq(v, p, p + Len(want) - 1) = want
          /\ BlockOk(e, c + 1, last, v, p + Len(want))
\* boundaries of valid text: v = 0/1 for each index 0..n+1
Boundary(a) == LET e == a[1] u == SubSeq(a, 3, 2 + a[2])
                   os == Offsets(e, Runes(e, u))
               IN Ok([j \in 1..(Len(u) + 2) |-> B(\E k \in 1..Len(os) : os[k] = j - 1)])
Accept(ev) ==
  LET o == ev.op a == ev.a IN
  CASE o = "scan" -> Match(ev, Scan(a))
    [] o = "encode" -> Match(ev, Encode(a))
    [] o = "size" -> Match(ev, Size(a))
    [] o = "block" -> Judge(ev.k = "ok" /\ BlockOk(a[1], a[2], a[2] + a[3] - 1, ev.v, 1),
                            "the standard encoding of each code point")
    [] o = "boundary" -> Match(ev, Boundary(a))
Next == i <= Len(Trace) /\ i' = i + 1 /\ Accept(Trace[i])
=============================================================================
