------------------------------- MODULE Helpers -------------------------------
(* The type-level helpers as machines that work on their arguments step by    *)
(* step, and what they are to compute. Numbers, flags, lists and texts are    *)
(* the trees of Values. A call in progress: [f, x, y, z, acc].                *)
EXTENDS Values

BoolV(b) == [k |-> "bool", n |-> IF b THEN 1 ELSE 0, s |-> <<>>, xs |-> <<>>, f |-> <<>>]

Arg(args, n) == IF n <= Len(args) THEN args[n] ELSE NumV(0)
Arrange(f, args) == [f |-> f, x |-> Arg(args, 1), y |-> Arg(args, 2), z |-> Arg(args, 3), acc |-> <<>>]

Compares == {"Gte", "Gt", "Lte", "Lt"}

\* ------------------------------------------------------------------- the steps
Busy(m) ==
  CASE m.f \in {"Add", "Sub"} -> m.y.n > 0
    [] m.f \in Compares -> m.x.n > 0 /\ m.y.n > 0
    [] m.f = "Reverse" -> m.x.xs # <<>>
    [] m.f \in {"PopNStack", "PopNStackWithValue"} -> m.y.n > 0
    [] m.f = "Substring" -> m.z.n > 0 /\ m.x.s # <<>>
    [] OTHER -> FALSE
Down(v) == [v EXCEPT !.n = IF @ = 0 THEN 0 ELSE @ - 1]
Step(m) ==
  CASE m.f = "Add" -> [m EXCEPT !.x.n = @ + 1, !.y = Down(@)]
    [] m.f = "Sub" -> [m EXCEPT !.x = Down(@), !.y = Down(@)]
    [] m.f \in Compares -> [m EXCEPT !.x = Down(@), !.y = Down(@)]
    [] m.f \in {"Reverse", "PopNStack", "PopNStackWithValue"} ->
         [m EXCEPT !.acc = <<Head(m.x.xs)>> \o @, !.x.xs = Tail(@), !.y = Down(@)]
    [] m.f = "Substring" ->
         [m EXCEPT !.x.s = Tail(@), !.y = Down(@), !.z = Down(@),
                   !.acc = IF m.y.n > 0 THEN @ ELSE Append(@, Head(m.x.s))]
Result(m) ==
  CASE m.f \in {"Add", "Sub"} -> m.x
    [] m.f = "Succ" -> NumV(m.x.n + 1)
    [] m.f = "Pred" -> Down(m.x)
    [] m.f = "Eq" -> BoolV(m.x = m.y)
    [] m.f = "Gte" -> BoolV(m.y.n = 0)
    [] m.f = "Gt" -> BoolV(m.y.n = 0 /\ m.x.n > 0)
    [] m.f = "Lte" -> BoolV(m.x.n = 0)
    [] m.f = "Lt" -> BoolV(m.x.n = 0 /\ m.y.n > 0)
    [] m.f = "Negate" -> BoolV(m.x.n = 0)
    [] m.f = "Reverse" -> TupV(m.acc)
    [] m.f = "Tail" -> TupV(IF m.x.xs = <<>> THEN <<>> ELSE Tail(m.x.xs))
    [] m.f = "PopNStack" -> m.x
    [] m.f = "PopNStackWithValue" -> TupV(<<m.x, TupV(m.acc)>>)
    [] m.f = "Substring" -> StrV(m.acc)
    [] m.f = "IsWhitespace" -> BoolV(m.x.s \in {<<32>>, <<10>>})

\* ------------------------------------------------ what they are to compute
Backwards(xs) == [n \in DOMAIN xs |-> xs[Len(xs) + 1 - n]]
Least(a, b) == IF a < b THEN a ELSE b
Meaning(f, args) ==
  LET a == Arg(args, 1)
      b == Arg(args, 2)
      e == Arg(args, 3)
  IN CASE f = "Succ" -> NumV(a.n + 1)
       [] f = "Pred" -> NumV(IF a.n = 0 THEN 0 ELSE a.n - 1)
       [] f = "Add" -> NumV(a.n + b.n)
       [] f = "Sub" -> NumV(a.n - b.n)
       [] f = "Eq" -> BoolV(a.n = b.n)
       [] f = "Gte" -> BoolV(a.n >= b.n)
       [] f = "Gt" -> BoolV(a.n > b.n)
       [] f = "Lte" -> BoolV(a.n <= b.n)
       [] f = "Lt" -> BoolV(a.n < b.n)
       [] f = "Negate" -> BoolV(a.n # 1)
       [] f = "Reverse" -> TupV(Backwards(a.xs))
       [] f = "Tail" -> TupV(SubSeq(a.xs, 2, Len(a.xs)))
       [] f = "PopNStack" -> TupV(SubSeq(a.xs, b.n + 1, Len(a.xs)))
       [] f = "PopNStackWithValue" -> TupV(<<TupV(SubSeq(a.xs, b.n + 1, Len(a.xs))), TupV(Backwards(SubSeq(a.xs, 1, b.n)))>>)
       [] f = "Substring" -> StrV(SubSeq(a.s, b.n + 1, Least(e.n, Len(a.s))))
       [] f = "IsWhitespace" -> BoolV(a.s = <<32>> \/ a.s = <<10>>)
\* arguments for which a helper is defined, with successors and predecessors up to N
InRange(f, args, N) ==
  LET a == Arg(args, 1)
      b == Arg(args, 2)
  IN CASE f = "Succ" -> a.n < N
       [] f = "Pred" -> a.n <= N
       [] f = "Add" -> a.n + b.n <= N
       [] f = "Sub" -> b.n <= a.n /\ a.n <= N
       [] f \in Compares -> a.n <= N /\ b.n <= N
       [] f \in {"PopNStack", "PopNStackWithValue"} -> b.n <= Len(a.xs) /\ b.n <= N
       [] f = "Substring" -> b.n <= Len(a.s)
       [] OTHER -> TRUE
=============================================================================
