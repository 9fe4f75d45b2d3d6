----------------------------- MODULE LrMachine -----------------------------
(* The shift/reduce machine that runs on the LALR(1) automaton of a grammar, *)
(* as one step function on a configuration: a stack of LALR states (cores)   *)
(* and the symbols not yet read.                                             *)
EXTENDS Lalr

StartStack == <<Core(StartKernel)>>
Top(st) == st[Len(st)]

\* what happens with a on top of the stack: shift, reduce, accept, or stuck
Move(g, Q, st, a) ==
  LET as == Actions(g, Q[Top(st)], a)
  IN IF as = {} THEN [k |-> "stuck", to |-> {}, p |-> 0] ELSE CHOOSE x \in as : TRUE

Shifted(st, m) == Append(st, m.to)
Reduced(g, Q, st, m) ==
  LET rest == SubSeq(st, 1, Len(st) - Len(Rhs(g, m.p)))
  IN Append(rest, Target(g, Q[Top(rest)], g.prods[m.p].l))

\* the machine until it shifts or accepts a, or gets stuck on it
RECURSIVE Settle(_, _, _, _)
Settle(g, Q, st, a) ==
  LET m == TLCEval(Move(g, Q, st, a)) IN
  IF m.k = "r" THEN Settle(g, Q, Reduced(g, Q, st, m), a)
  ELSE [k |-> m.k, st |-> IF m.k = "s" THEN Shifted(st, m) ELSE st]

\* the machine on a whole token sequence (for use inside one step)
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(g, Q, st, w, n) ==
  LET m == TLCEval(Move(g, Q, st, IF n <= Len(w) THEN w[n] ELSE EOF)) IN
  CASE m.k = "stuck" -> FALSE
    [] m.k = "a" -> TRUE
    [] m.k = "s" -> RunFrom(g, Q, Shifted(st, m), w, n + 1)
    [] m.k = "r" -> RunFrom(g, Q, Reduced(g, Q, st, m), w, n)
=============================================================================
