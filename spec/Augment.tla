------------------------------- MODULE Augment -------------------------------
(* From the productions of a grammar file to the augmented, numbered grammar. *)
(* Productions as read: [name, start, ts, bodies: seq of [syms, fn]], symbols *)
(* [k, v] with k = "lit" | "re" | "nt". Everything numbered from 0.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sym(s) == [k |-> s.k, v |-> s.v]
Body(b) == [n \in DOMAIN b.syms |-> Sym(b.syms[n])]

StartAt(ast) == CHOOSE n \in DOMAIN ast : ast[n].start /\ \A m \in 1..(n - 1) : ~ast[m].start
AugName(ast) == ast[StartAt(ast)].name \o "'"

RECURSIVE Alts(_, _, _)
\* the alternatives of ast[n..], in order
Alts(ast, n, k) ==
  IF n > Len(ast) THEN <<>>
  ELSE IF k > Len(ast[n].bodies) THEN Alts(ast, n + 1, 1)
  ELSE <<[l |-> ast[n].name, r |-> Body(ast[n].bodies[k]), ts |-> ast[n].ts, fn |-> ast[n].bodies[k].fn, code |-> TRUE]>>
       \o Alts(ast, n, k + 1)

Augmented(ast) ==
  <<[l |-> AugName(ast), r |-> <<[k |-> "nt", v |-> ast[StartAt(ast)].name]>>, ts |-> "", fn |-> "", code |-> FALSE]>>
  \o Alts(ast, 1, 1)

SymbolsOf(prods) == UNION {{prods[n].r[k] : k \in DOMAIN prods[n].r} : n \in DOMAIN prods}
=============================================================================
