----------------------------- MODULE FmtTreeMC -----------------------------
(* Laws of structured output over every small tree of blocks.                *)
EXTENDS FmtTree, FiniteSets, TLC
CONSTANTS Width, Deep, Broken
VARIABLES tree, alt
\* A tree here: <<0, character>>, <<1, character, character>> (two lines) or
\* <<2, block, children>>.
Leaves == {<<0, 97>>, <<1, 97, 98>>}
Blocks(S, n) == {<<2, b, f>> : b \in {0, 2}, f \in UNION {[1..k -> S] : k \in 0..n}}
Level1 == Leaves \cup Blocks(Leaves, Width)
Level2 == Blocks(Level1, Width)
Trees == IF Deep = 1 THEN Level2 \cup Blocks(Level2, 1) ELSE Level2
RECURSIVE Code(_), Codes(_), Flat(_), Join(_), Chars(_), AllChars(_)
\* In the prefix form of the formatter.
Code(t) == CASE t[1] = 0 -> <<3, t[2]>>
             [] t[1] = 1 -> <<2, 2, 3, t[2], 10, t[3]>>
             [] t[1] = 2 -> <<6, t[2], 0, -1, Len(t[3])>> \o Codes(t[3]) \o <<0>>
Codes(ts) == IF ts = <<>> THEN <<>> ELSE <<0>> \o Code(Head(ts)) \o Codes(Tail(ts))
\* What the flat form is.
Flat(t) == CASE t[1] = 0 -> <<t[2]>>
             [] t[1] = 1 -> <<t[2], 10, t[3]>>
             [] t[1] = 2 -> Open(t[2]) \o Join(t[3]) \o Shut(t[2])
Join(ts) == IF ts = <<>> THEN <<>>
            ELSE IF Len(ts) = 1 THEN Flat(ts[1]) ELSE Flat(ts[1]) \o <<44, 32>> \o Join(Tail(ts))
Chars(t) == IF t[1] < 2 THEN Tail(t) ELSE AllChars(t[3])
AllChars(ts) == IF ts = <<>> THEN <<>> ELSE Chars(Head(ts)) \o AllChars(Tail(ts))

Init == tree \in Trees /\ alt \in {0, 1}
Next == UNCHANGED <<tree, alt>>
Out(o) == IF Broken = 1 /\ Len(o) > 12 THEN SubSeq(o, 1, 12) \o <<32>> \o SubSeq(o, 13, Len(o)) ELSE o
Final == Fmt(Code(tree), 1, [PlainS EXCEPT ![1] = alt], Start).st
Only(o, S) == SelectSeq(o, LAMBDA c : c \in S)
FlatForm(o) == alt = 0 => o = Flat(tree)
Once(o) == Only(o, {97, 98}) = Chars(tree)
Opens == {91, 123}
Shuts == {93, 125}
DepthAt(o, j) == Cardinality({k \in 1..j : o[k] \in Opens}) - Cardinality({k \in 1..j : o[k] \in Shuts})
Balanced(o) == /\ DepthAt(o, Len(o)) = 0
            /\ \A j \in 1..(Len(o) - 1) : DepthAt(o, j) > 0
\* The form of several lines: the same brackets and items, each item's line
\* indented by its depth, the closing bracket by one less.
Starts(o) == {j \in 2..Len(o) : o[j - 1] = 10}
Indent(o, j) == CHOOSE n \in 0..(Len(o) - j) : o[j + n] # 32 /\ \A k \in 0..(n - 1) : o[j + k] = 32
Lines(o) == alt = 1 => \A j \in Starts(o) :
           LET n == Indent(o, j) d == DepthAt(o, j - 1)
           IN n = 2 * (IF o[j + n] \in Shuts THEN d - 1 ELSE d)
Same(o) == alt = 1 => Only(o, {97, 98} \cup Opens \cup Shuts) = Only(Flat(tree), {97, 98} \cup Opens \cup Shuts)
\* A comma follows every item, and only items.
Commas(o) == alt = 1 => \A j \in 2..(Len(o) - 1) :
            /\ o[j] = 44 => o[j - 1] \in {97, 98} \cup Shuts /\ o[j + 1] = 10
            /\ (o[j] \in Shuts) => o[j + 1] = 44
Laws == LET st == Final o == Out(st.out)
        IN st.depth = 0 /\ FlatForm(o) /\ Once(o) /\ Balanced(o) /\ Lines(o) /\ Same(o) /\ Commas(o)
=============================================================================
