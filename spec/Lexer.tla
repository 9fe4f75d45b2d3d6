------------------------------- MODULE Lexer -------------------------------
(* What tokenising means, independent of automata. A token definition is a   *)
(* record [name, val, re, num]: kind text (code points), whether a token     *)
(* carries its text, pattern, token number. Definitions are ordered by       *)
(* priority.                                                                 *)
EXTENDS Regex, TLC

Whitespace == {10, 32}

\* end positions of non-empty matches of any definition at position pos
NonEmptyEnds(defs, w, pos) ==
  UNION {Ends(defs[t].re, w, {pos}) : t \in DOMAIN defs} \ {pos}

\* The token at pos: longest match, then highest priority.
\* [hit |-> FALSE] when nothing matches.
TokenAt(defs, w, pos) ==
  LET ends == [t \in DOMAIN defs |-> Ends(defs[t].re, w, {pos}) \ {pos}]
      all  == UNION {ends[t] : t \in DOMAIN defs}
  IN IF all = {} THEN [hit |-> FALSE, t |-> 0, e |-> pos]
     ELSE LET e == MaxOf(all) IN
          [hit |-> TRUE, t |-> MinOf({t \in DOMAIN defs : e \in ends[t]}), e |-> e]

Tok(defs, t, w, pos, e) ==
  [name |-> defs[t].name,
   hasval |-> defs[t].val,
   val |-> IF defs[t].val THEN SubSeq(w, pos, e - 1) ELSE <<>>]

\* Whole-input tokenisation as a function (the machines below compute the same)
RECURSIVE LexFrom(_, _, _, _)
LexFrom(defs, w, pos, out) ==
  LET k == TokenAt(defs, w, pos) IN
  IF k.hit THEN LexFrom(defs, w, k.e, Append(out, [t |-> k.t, b |-> pos, e |-> k.e]))
  ELSE IF pos <= Len(w) /\ w[pos] \in Whitespace THEN LexFrom(defs, w, pos + 1, out)
  ELSE [toks |-> out, stop |-> pos]
LexAll(defs, w) == LexFrom(defs, w, 1, <<>>)
Complete(w, r) == r.stop = Len(w) + 1
TokenList(defs, w) ==
  LET r == LexAll(defs, w) IN
  [n \in DOMAIN r.toks |-> Tok(defs, r.toks[n].t, w, r.toks[n].b, r.toks[n].e)]

\* How far a scanner that backtracks looks: the characters from pos on that begin a word of some
\* definition, and the moves it takes for the whole input (characters, tokens, skipped white space).
RECURSIVE ReadsFrom(_, _, _, _)
ReadsFrom(as, S, w, i) ==
  IF i > Len(w) THEN i
  ELSE LET T == TLCEval([n \in DOMAIN as |-> PosStep(as[n], S[n], w[i])]) IN
       IF \A n \in DOMAIN as : T[n] = {} THEN i ELSE ReadsFrom(as, T, w, i + 1)
RECURSIVE MovesFrom(_, _, _, _, _)
MovesFrom(defs, as, w, pos, acc) ==
  LET k == TokenAt(defs, w, pos)
      n == ReadsFrom(as, [d \in DOMAIN as |-> PosStart], w, pos) - pos
  IN IF k.hit THEN MovesFrom(defs, as, w, k.e, acc + n + 1)
     ELSE IF pos <= Len(w) /\ w[pos] \in Whitespace THEN MovesFrom(defs, as, w, pos + 1, acc + n + 1)
     ELSE acc + n
Moves(defs, w) == MovesFrom(defs, TLCEval([d \in DOMAIN defs |-> PosAut(defs[d].re)]), w, 1, 0)
=============================================================================
