---------------------------- MODULE LexGenTrace ----------------------------
(* Product of a generated lexer module (its state table, read the way the    *)
(* type-level lexer reads it) with the joint position automaton of the token *)
(* definitions. Explored to the end it decides for ALL strings whether the   *)
(* module accepts the same prefixes with the same winning token.             *)
(* A case: [id, note, defs, states, map, toks]                               *)
(*   states: sequence of [e, acc]; e: sequence of <<from, to, state>>, half  *)
(*     open, tried in order; states are numbered from 0                      *)
(*   map: sequence of [d, n]: state number, sequence of numbers              *)
(*   toks: sequence of [n, kind, val]                                        *)
EXTENDS Lexer, CaseFile

AltOf(c) == [k |-> "alt", rs |-> <<>>, xs |-> [t \in DOMAIN Cases[c].defs |-> Cases[c].defs[t].re], mn |-> 0, mx |-> 0, p |-> 0]
ASSUME TLCSet(3, TLCEval([c \in DOMAIN Cases |-> PosAut(AltOf(c))]))
Auts == TLCGet(3)
ASSUME Settled(3)
SeqSet(s) == {s[n] : n \in DOMAIN s}
ASSUME TLCSet(4, TLCEval([c \in DOMAIN Cases |->
   Reps(RangesOf(Leaves(AltOf(c)))
        \cup UNION {{<<x[1], x[2] - 1>> : x \in SeqSet(Cases[c].states[n].e)} : n \in DOMAIN Cases[c].states})]))
Chars == TLCGet(4)
ASSUME Settled(4)
ASSUME TLCSet(5, TLCEval([c \in DOMAIN Cases |-> [t \in DOMAIN Cases[c].defs |-> Last(Cases[c].defs[t].re)]]))
Lasts == TLCGet(5)
ASSUME Settled(5)

Dead == -1
VARIABLES c, S, d, w
vars == <<c, S, d, w>>
View == <<c, S, d>>

Exists(q) == q = Dead \/ q + 1 \in DOMAIN Cases[c].states
Follow1(q, a) ==
  IF q = Dead THEN Dead
  ELSE LET es == Cases[c].states[q + 1].e
           hit == {n \in DOMAIN es : es[n][1] <= a /\ a < es[n][2]}
       IN IF hit = {} THEN Dead ELSE es[MinOf(hit)][3]

Init == c \in DOMAIN Cases /\ S = PosStart /\ d = 0 /\ w = <<>>
Next == /\ S # {} \/ d # Dead
        /\ Cases[c].note = "" /\ Exists(d)
        /\ \E a \in Chars[c] : /\ S' = PosStep(Auts[c], S, a)
                               /\ d' = Follow1(d, a)
                               /\ w' = Append(w, a)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Winners == {t \in DOMAIN Cases[c].defs : Lasts[c][t] \cap S # {} \/ (w = <<>> /\ Nullable(Cases[c].defs[t].re))}
\* the token the type-level lexer takes in state d: the first of the state's
\* numbers that is a token
NumsOf(q) == LET m == {n \in DOMAIN Cases[c].map : Cases[c].map[n].d = q} IN
             IF m = {} THEN <<>> ELSE Cases[c].map[MinOf(m)].n
TokensAt(n) == {i \in DOMAIN Cases[c].toks : Cases[c].toks[i].n = n}
TokenOf(q) ==
  LET ns == NumsOf(q)
      hits == {n \in DOMAIN ns : TokensAt(ns[n]) # {}}
  IN IF hits = {} THEN [kind |-> <<-1>>, val |-> FALSE]
     ELSE LET x == Cases[c].toks[MinOf(TokensAt(ns[MinOf(hits)]))] IN [kind |-> x.kind, val |-> x.val]

Why ==
  IF Cases[c].note # "" THEN Cases[c].note
  ELSE IF ~Exists(d) THEN "an edge leads to a state that is not in the table"
  ELSE LET acc == d # Dead /\ Cases[c].states[d + 1].acc IN
       IF acc /\ Winners = {} THEN "the module accepts where no pattern matches"
       ELSE IF ~acc /\ Winners # {} THEN "the module does not accept where a pattern matches"
       ELSE IF ~acc THEN ""
       ELSE LET def == Cases[c].defs[MinOf(Winners)]
                got == TokenOf(d)
            IN IF got.kind = <<-1>> THEN "an accepting state without a token"
               ELSE IF got.kind # def.name THEN "another token than the definitions prescribe"
               ELSE IF got.val # def.val THEN "wrong has-value flag"
               ELSE ""
Conforms == IF Why = "" THEN TRUE
            ELSE ~PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, w |-> w, why |-> Why]))
=============================================================================
