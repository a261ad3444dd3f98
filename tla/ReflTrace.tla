----------------------------- MODULE ReflTrace -----------------------------
(* What the real reflections of generated types say and do.                  *)
(* a = <<type, question...>>; see drivers/refl.h for the answers.            *)
EXTENDS FnTrace, ReflDefs
Decls == ndJsonDeserialize(IOEnv.DECLS)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Text(s) == <<Len(s)>> \o s
Per(seq, F(_)) == Cat([j \in DOMAIN seq |-> F(seq[j])])
Sorted(S) == [j \in 1 .. Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = j - 1]
Base(d) == IF d.enum = 1 THEN Sorted({d.items[j].x : j \in DOMAIN d.items})
           ELSE [j \in DOMAIN d.items |-> j - 1]
\* The declaration of an item: for values with several names, the first one.
Of(d, k) == d.items[First({j \in DOMAIN d.items : d.items[j].x = k})]
Known(d, k) == \E j \in DOMAIN d.items : d.items[j].x = k
IsConst(it) == it.c > 100
Report(d, k) == Text(Of(d, k).n) \o (IF d.enum = 1 THEN <<k>> ELSE <<k + 1, Of(d, k).c>>)
Kinds(sel) == CASE sel = 5 -> {1, 3} [] sel = 6 -> {} [] OTHER -> {sel}
Select(tags, sel) == LET s == SelectSeq(tags, LAMBDA t : t[1] \in Kinds(sel)) IN <<Len(s)>> \o Cat(s)
Ref(const, k) == k + (IF const THEN 10 ELSE 0)
Bool(x) == IF x THEN 1 ELSE 0
RECURSIVE Digits(_)
Digits(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Word(s) == SubSeq(s, 3, 2 + s[2])
Word2(s) == SubSeq(s, 4, 3 + s[3])
PrintS(d, name, items) ==
  IF items = <<>> THEN name \o <<32, 123, 125>>
  ELSE name \o <<32, 123>> \o Cat([j \in DOMAIN items |->
         (IF j = 1 THEN <<>> ELSE <<44, 32>>) \o Of(d, items[j].k).n \o <<58, 32>> \o Digits(items[j].k + 1)]) \o <<125>>
PrintV(d, name, items, x) ==
  IF \E j \in DOMAIN items : items[j].k = x THEN name \o <<58, 58>> \o Of(d, x).n
  ELSE name \o <<40>> \o Digits(x) \o <<41>>
Answer(d, e) ==
  LET st == Reflect(d.steps, Base(d))
      its == st.items
      nm == NameOf(d.comps)
      Named(s) == LET S == {j \in DOMAIN its : Of(d, its[j].k).n = s} IN IF S = {} THEN 0 ELSE First(S)
      N == Len(d.items)
      Start(b) == [j \in 1 .. N |-> b + j]
  IN CASE e.op = "names" -> Ok(Text(nm) \o Text(PathOf(d.comps)) \o Text(SpaceOf(d.comps)) \o Text(ParamsOf(d.comps))
                               \o Text(NameParams(d.comps)) \o Text(Join(d.comps)) \o Text(nm))
       [] e.op = "is" -> LET s == Bool(d.enum = 0 /\ d.refl = 1) IN Ok(<<s, d.enum, Bool(s + d.enum > 0), s, d.enum>>)
       [] e.op = "fname" -> Ok(Text(d.items[e.a[2] + 1].n))
       [] e.op = "vname" -> IF Known(d, e.a[3]) THEN Ok(Text(Of(d, e.a[3]).n)) ELSE None
       [] e.op = "ttags" -> Ok(Select(st.tags, e.a[2]))
       [] e.op = "itags" -> Ok(Per(its, LAMBDA it : Select(it.t, e.a[2])))
       [] e.op = "each" -> Ok(Text(nm) \o Text(Join(d.comps)) \o Per(its, LAMBDA it : Report(d, it.k)))
       [] e.op = "apply" -> Ok(Per(its, LAMBDA it : Report(d, it.k)) \o <<Len(its)>>)
       [] e.op = "match" -> LET j == Named(Word(e.a)) IN Ok(IF j = 0 THEN <<0>> ELSE Report(d, its[j].k) \o <<1>>)
       [] e.op = "matchv" -> LET j == At(its, e.a[2]) IN Ok(IF j = 0 THEN <<0>> ELSE Report(d, its[j].k) \o <<1>>)
       [] e.op = "fmt" -> Ok(Text(IF d.enum = 0 THEN PrintS(d, nm, its)
                                  ELSE PrintV(d, nm, its, IF N = 0 THEN 0 ELSE d.items[1].x)))
       [] e.op = "vfmt" -> Ok(Text(PrintV(d, nm, its, e.a[2])))
       [] e.op = "cats" -> Ok(Per(its, LAMBDA it : LET c == IsConst(Of(d, it.k)) IN
                                <<Ref(c, 1), 11, Ref(c, 2), 12, Ref(c, 1), 11, 1, 1>>))
       [] e.op = "set" -> LET j == Named(Word2(e.a)) IN
                          Ok(IF j = 0 THEN <<0>> \o Start(0)
                             ELSE <<1>> \o [f \in 1 .. N |-> IF f = its[j].k + 1 /\ ~IsConst(d.items[f]) THEN e.a[2] ELSE f])
       [] e.op = "zip" ->
            LET n == e.a[2]
                shown == {its[j].k + 1 : j \in DOMAIN its}
            IN Ok(Per(its, LAMBDA it : LET c == IsConst(Of(d, it.k)) f == it.k + 1 IN
                    <<Ref(c, 1), f>> \o (CASE n = 1 -> <<>> [] n = 2 -> <<11, 20 + f>> [] n = 3 -> <<Ref(c, 2), 20 + f, 11, 40 + f>>))
                  \o [f \in 1 .. N |-> IF f \in shown /\ ~IsConst(d.items[f]) THEN f + 50 ELSE f] \o Start(20))
       [] e.op = "fields" -> Ok(<<Len(its)>> \o Per(its, LAMBDA it : LET c == IsConst(Of(d, it.k)) IN
                                  <<Ref(c \/ e.a[2] = 2, IF e.a[2] = 3 THEN 2 ELSE 1)>>)
                                \o Per(its, LAMBDA it : <<it.k + 1>>))
Next == i <= Len(Trace) /\ i' = i + 1 /\ Match(Trace[i], Answer(Decls[Trace[i].a[1] + 1], Trace[i]))
=============================================================================
