-------------------------------- MODULE Cfg --------------------------------
(* Context-free grammars and what they derive. A grammar is a record         *)
(*   prods: sequence of [l, r]: left side, sequence of symbols               *)
(*   nts, ts: sequences of nonterminals and terminals                        *)
(* Symbols are integers, 0 is end-of-input. Production 1 is the augmented    *)
(* start production S' -> S. Empty right sides are allowed.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

EOF == 0
SeqToSet(s) == {s[n] : n \in DOMAIN s}
Nts(g) == SeqToSet(g.nts)
Ts(g) == SeqToSet(g.ts)
Rhs(g, p) == g.prods[p].r
ProdsOf(g, A) == {p \in DOMAIN g.prods : g.prods[p].l = A}

\* ----------------------------------------------------------- nullable, FIRST
\* Both are least fixpoints, computed in rounds.
NullRound(g, N) == N \cup {A \in Nts(g) : \E p \in ProdsOf(g, A) : SeqToSet(Rhs(g, p)) \subseteq N}

\* FIRST of the sequence s[i..], given FIRST of the nonterminals and nullables
RECURSIVE FirstOf(_, _, _, _)
FirstOf(F, N, s, i) ==
  IF i > Len(s) THEN {}
  ELSE IF s[i] \notin DOMAIN F THEN {s[i]}
  ELSE IF s[i] \in N THEN F[s[i]] \cup FirstOf(F, N, s, i + 1)
  ELSE F[s[i]]
NullFrom(N, s, i) == \A n \in i..Len(s) : s[n] \in N

FirstZero(g) == TLCEval([A \in Nts(g) |-> {}])
FirstRound(g, F, N) ==
  TLCEval([A \in Nts(g) |-> F[A] \cup UNION {FirstOf(F, N, Rhs(g, p), 1) : p \in ProdsOf(g, A)}])

RECURSIVE NullFix(_, _)
NullFix(g, N) == LET M == TLCEval(NullRound(g, N)) IN IF M = N THEN N ELSE NullFix(g, M)
RECURSIVE FirstFix(_, _, _)
FirstFix(g, F, N) == LET M == FirstRound(g, F, N) IN IF M = F THEN F ELSE FirstFix(g, M, N)

\* -------------------------------------------------------------- derivations
\* Spans of a token sequence w: <<A, i, j>> iff A derives w[i..j-1].
\* Ends of a right side r from position i, given the spans found so far.
RECURSIVE RhsEnds(_, _, _, _, _)
RhsEnds(D, w, r, n, S) ==
  IF n > Len(r) \/ S = {} THEN S
  ELSE RhsEnds(D, w, r, n + 1,
         TLCEval({i + 1 : i \in {j \in S : j <= Len(w) /\ w[j] = r[n]}}
                 \cup UNION {D[<<r[n], i>>] : i \in {j \in S : <<r[n], j>> \in DOMAIN D}}))
SpanRound(g, w, D) ==
  TLCEval([x \in DOMAIN D |-> D[x] \cup UNION {RhsEnds(D, w, Rhs(g, p), 1, {x[2]}) : p \in ProdsOf(g, x[1])}])
RECURSIVE SpanFix(_, _, _)
SpanFix(g, w, D) == LET E == SpanRound(g, w, D) IN IF E = D THEN D ELSE SpanFix(g, w, E)
Spans(g, w) == SpanFix(g, w, TLCEval([x \in Nts(g) \X (1..(Len(w) + 1)) |-> {}]))
StartOf(g) == Rhs(g, 1)[1]
\* nonterminals that derive some string of terminals
ProdRound(g, P) == P \cup {A \in Nts(g) : \E p \in ProdsOf(g, A) : SeqToSet(Rhs(g, p)) \cap Nts(g) \subseteq P}
RECURSIVE Productive(_, _)
Productive(g, P) == LET M == TLCEval(ProdRound(g, P)) IN IF M = P THEN P ELSE Productive(g, M)

\* <<A, i>> is a cover iff A derives a string that begins with w[i..]; D: the spans of w.
\* Of a right side: a position in it that the symbols before reach exactly, from which the
\* rest of w is covered, and symbols after it that derive something.
CoverRhs(g, D, w, P, C, r, i) ==
  LET alive(n) == \A m \in n..Len(r) : r[m] \in Nts(g) => r[m] \in P IN
  \E n \in 1..(Len(r) + 1) :
    LET S == RhsEnds(D, w, SubSeq(r, 1, n - 1), 1, {i}) IN
    \/ (Len(w) + 1) \in S /\ alive(n)
    \/ n <= Len(r) /\ alive(n + 1) /\ \E j \in S : <<r[n], j>> \in C
CoverRound(g, D, w, P, C) ==
  C \cup {x \in Nts(g) \X (1..(Len(w) + 1)) : \E p \in ProdsOf(g, x[1]) : CoverRhs(g, D, w, P, C, Rhs(g, p), x[2])}
RECURSIVE CoverFix(_, _, _, _, _)
CoverFix(g, D, w, P, C) == LET E == TLCEval(CoverRound(g, D, w, P, C)) IN IF E = C THEN C ELSE CoverFix(g, D, w, P, E)
\* some sentence begins with w
Viable(g, w) == <<StartOf(g), 1>> \in CoverFix(g, Spans(g, w), w, Productive(g, {}), {})
InLanguage(g, w) == (Len(w) + 1) \in Spans(g, w)[<<StartOf(g), 1>>]
=============================================================================
