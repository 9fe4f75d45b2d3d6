-------------------------------- MODULE Lalr --------------------------------
(* The LALR(1) automaton of a grammar, from its textbook definition: the     *)
(* canonical LR(1) collection, with states of equal core merged.             *)
(* An LR(0) item is <<p, d>>: production p, dot after d symbols. A state is  *)
(* a function from its LR(0) items to their (non-empty) sets of lookaheads.  *)
(* A canonical state is identified by its kernel, an LALR state by its core, *)
(* the LR(0) items of its kernel.                                            *)
EXTENDS Cfg

StartKernel == [x \in {<<1, 0>>} |-> {EOF}]
Core(K) == DOMAIN K

AtEnd(g, x) == x[2] = Len(Rhs(g, x[1]))
Dotted(g, x) == Rhs(g, x[1])[x[2] + 1]

\* what a closure needs of the grammar, computed once:
\* of[A]: A's productions; led[B]: productions that begin with B, each with its
\* left side, FIRST of what follows B, and whether that can be empty
Heads(g, F, N) ==
  TLCEval([of |-> [A \in Nts(g) |-> ProdsOf(g, A)],
           led |-> [B \in Nts(g) |->
              {[l |-> g.prods[p].l, f |-> FirstOf(F, N, Rhs(g, p), 2), n |-> NullFrom(N, Rhs(g, p), 2)]
               : p \in {x \in DOMAIN g.prods : Rhs(g, x) # <<>> /\ Rhs(g, x)[1] = B}}],
           first |-> F, null |-> N])

\* lookaheads with which each nonterminal's productions are in the closure
RECURSIVE Spread(_, _)
Spread(H, L) ==
  LET M == TLCEval([B \in DOMAIN L |->
             L[B] \cup UNION {h.f \cup (IF h.n THEN L[h.l] ELSE {}) : h \in {x \in H.led[B] : L[x.l] # {}}}])
  IN IF M = L THEN L ELSE Spread(H, M)
Closure(g, H, K) ==
  LET from(B) == {x \in DOMAIN K : ~AtEnd(g, x) /\ Dotted(g, x) = B}
      L0 == TLCEval([B \in Nts(g) |->
              UNION {FirstOf(H.first, H.null, Rhs(g, x[1]), x[2] + 2)
                     \cup (IF NullFrom(H.null, Rhs(g, x[1]), x[2] + 2) THEN K[x] ELSE {}) : x \in from(B)}])
      L == Spread(H, L0)
      opened == UNION {{<<p, 0>> : p \in H.of[B]} : B \in {b \in DOMAIN L : L[b] # {}}}
  IN TLCEval([x \in DOMAIN K \cup opened |->
        (IF x \in DOMAIN K THEN K[x] ELSE {}) \cup (IF x \in opened THEN L[g.prods[x[1]].l] ELSE {})])

SymbolsAfterDot(g, I) == {Dotted(g, x) : x \in {y \in DOMAIN I : ~AtEnd(g, y)}}
Goto(g, I, X) ==
  LET J == {y \in DOMAIN I : ~AtEnd(g, y) /\ Dotted(g, y) = X}
  IN TLCEval([x \in {<<y[1], y[2] + 1>> : y \in J} |-> I[<<x[1], x[2] - 1>>]])

Both(I, J) == [x \in DOMAIN I \cup DOMAIN J |->
                (IF x \in DOMAIN I THEN I[x] ELSE {}) \cup (IF x \in DOMAIN J THEN J[x] ELSE {})]
RECURSIVE Union(_)
Union(S) == IF Cardinality(S) = 1 THEN CHOOSE I \in S : TRUE
            ELSE LET I == CHOOSE I \in S : TRUE IN TLCEval(Both(I, Union(S \ {I})))

\* ------------------------------------------------------- states of the LALR(1)
\* Q maps cores to closed, merged states.
Target(g, I, X) == {<<y[1], y[2] + 1>> : y \in {z \in DOMAIN I : ~AtEnd(g, z) /\ Dotted(g, z) = X}}
Finished(g, I) == {x \in DOMAIN I : AtEnd(g, x)}

\* actions of a state on terminal a: shift to a core, reduce by p, accept
Actions(g, I, a) ==
  LET sh == Target(g, I, a)
      fin == {y \in DOMAIN I : AtEnd(g, y) /\ a \in I[y]}
  IN (IF sh # {} THEN {[k |-> "s", to |-> sh, p |-> 0]} ELSE {})
     \cup {[k |-> IF x[1] = 1 THEN "a" ELSE "r", to |-> {}, p |-> IF x[1] = 1 THEN 0 ELSE x[1]] : x \in fin}
Lookaheads(g, I) == UNION {I[x] : x \in Finished(g, I)} \cup (SymbolsAfterDot(g, I) \cap Ts(g))
ConflictAt(g, I) == {a \in Lookaheads(g, I) : Cardinality(Actions(g, I, a)) > 1}

\* ---------------------------------------------------------------- construction
\* One round: close the canonical states on the frontier, merge them into Q by
\* core, and find the kernels they lead to.
Closed(g, H, front) == TLCEval({<<Core(K), Closure(g, H, K)>> : K \in front})
Absorb(Q, cl) ==
  LET cores == TLCEval({x[1] : x \in cl})
  IN TLCEval([k \in cores \cup DOMAIN Q |->
        Union((IF k \in DOMAIN Q THEN {Q[k]} ELSE {}) \cup {x[2] : x \in {y \in cl : y[1] = k}})])
Onward(g, cl) == TLCEval(UNION {{Goto(g, x[2], X) : X \in SymbolsAfterDot(g, x[2])} : x \in cl})
=============================================================================
