----------------------------- MODULE ValueTrace -----------------------------
(* Recorded evaluations of the type-level parser on texts. A text is split   *)
(* into tokens, derived from the start symbol, and the derivation evaluated  *)
(* bottom-up with the mapping code; that is what the parser has to compute.  *)
(*   "value"  sentences: the value, or an error beyond the budget   (C17)    *)
(*   "reject" everything: a parse value only for sentences          (C22)    *)
(* A case: [id, g, defs, codes, names, runs]; codes and names per production *)
(* (names: text of its left side); a run: [w, res, val, note, rust] with     *)
(* res = "value" | "error" | "fail", rust = "accepted" | "rejected" | "".    *)
EXTENDS Lexer, Cfg, Values, CaseFile

Budget == 49       \* shifts and reductions the parser may need

VARIABLES c, r, ph, pos, toks, D
vars == <<c, r, ph, pos, toks, D>>

G == Cases[c].g
Defs == Cases[c].defs
Run == Cases[c].runs[r]
W == Run.w

Init == /\ c \in DOMAIN Cases /\ r \in DOMAIN Cases[c].runs
        /\ ph = "lex" /\ pos = 1 /\ toks = <<>> /\ D = <<>>

Syms == [n \in DOMAIN toks |-> toks[n].t]

\* ---------------------------------------------------- the derivation, evaluated
\* Positions at which symbols n.. of right side rhs can be cut so that they
\* cover i..j: the first cut, chosen; unambiguous for the grammars judged here.
RECURSIVE Covers(_, _, _, _)
Covers(rhs, n, i, j) ==
  IF n > Len(rhs) THEN i = j
  ELSE IF rhs[n] \in Nts(G) THEN \E m \in D[<<rhs[n], i>>] : m <= j /\ Covers(rhs, n + 1, m, j)
  ELSE i < j /\ Syms[i] = rhs[n] /\ Covers(rhs, n + 1, i + 1, j)
CutEnd(rhs, n, i, j) ==
  IF rhs[n] \in Nts(G) THEN CHOOSE m \in D[<<rhs[n], i>>] : m <= j /\ Covers(rhs, n + 1, m, j)
  ELSE i + 1

RECURSIVE Node(_, _, _)
RECURSIVE Kids(_, _, _, _)
\* [v |-> value, z |-> number of nonterminal nodes]
Node(A, i, j) ==
  LET p == CHOOSE p \in ProdsOf(G, A) : Covers(Rhs(G, p), 1, i, j)
      ks == TLCEval(Kids(Rhs(G, p), 1, i, j))
      RECURSIVE Sum(_)
      Sum(n) == IF n > Len(ks) THEN 0 ELSE ks[n].z + Sum(n + 1)
  IN [v |-> ValueOf(Cases[c].codes[p], [n \in DOMAIN ks |-> ks[n].v]), z |-> 1 + Sum(1)]
Kids(rhs, n, i, j) ==
  IF n > Len(rhs) THEN <<>>
  ELSE LET m == CutEnd(rhs, n, i, j) IN
       <<IF rhs[n] \in Nts(G) THEN TLCEval(Node(rhs[n], i, m)) ELSE [v |-> StrV(toks[i].s), z |-> 0]>> \o Kids(rhs, n + 1, m, j)

KindT == <<107, 105, 110, 100>>            \* "kind"
ValueT == <<118, 97, 108, 117, 101>>       \* "value"
\* the answer: one symbol of the start nonterminal with its value
Answer(v) == TupV(<<ObjV(<<KindT, ValueT>>, <<StrV(Cases[c].names[CHOOSE p \in ProdsOf(G, StartOf(G)) : TRUE]), v>>)>>)

\* -------------------------------------------------------------------- verdicts
Judge(sentence) ==
  LET n == IF sentence THEN TLCEval(Node(StartOf(G), 1, Len(toks) + 1)) ELSE [v |-> StrV(<<>>), z |-> 0]
      steps == Len(toks) + n.z
      want == Answer(n.v)
      bad ==
        IF Run.res = "fail" THEN Run.note
        ELSE IF sentence THEN
          IF Run.res = "value" /\ Run.val # want THEN "another value than the mapping code gives"
          ELSE IF Run.res = "error" /\ steps <= Budget THEN "an error for a sentence within the budget"
          ELSE IF ASPECT = "reject" /\ Run.rust = "rejected" THEN "the Rust parser rejects a sentence"
          ELSE ""
        ELSE IF Run.res = "value" THEN "a parse value for a text that is no sentence"
        ELSE IF ASPECT = "reject" /\ Run.rust = "accepted" THEN "the Rust parser accepts a text that is no sentence"
        ELSE ""
  IN /\ ph' = IF bad = "" THEN "ok" ELSE "bad"
     /\ bad # "" => PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, run |-> r, why |-> bad, steps |-> steps, want |-> want]))
     /\ PrintT("VPOUT " \o ToJson([case |-> Cases[c].id, run |-> r, s |-> sentence, n |-> Len(toks), z |-> steps]))

Lex ==
  /\ ph = "lex"
  /\ LET k == TokenAt(Defs, W, pos) IN
     IF k.hit THEN /\ pos' = k.e /\ toks' = Append(toks, [t |-> Defs[k.t].num, s |-> SubSeq(W, pos, k.e - 1)])
                   /\ UNCHANGED <<ph, D>>
     ELSE IF pos <= Len(W) /\ W[pos] \in Whitespace THEN pos' = pos + 1 /\ UNCHANGED <<ph, toks, D>>
     ELSE IF pos <= Len(W) THEN Judge(FALSE) /\ UNCHANGED <<pos, toks, D>>
     ELSE /\ ph' = "derive"
          /\ D' = TLCEval([x \in Nts(G) \X (1..(Len(toks) + 1)) |-> {}])
          /\ UNCHANGED <<pos, toks>>
  /\ UNCHANGED <<c, r>>

Derive ==
  /\ ph = "derive"
  /\ D' = SpanRound(G, Syms, D)
  /\ IF D' # D THEN UNCHANGED ph
     ELSE Judge((Len(toks) + 1) \in D[<<StartOf(G), 1>>])
  /\ UNCHANGED <<c, r, pos, toks>>

Next == Lex \/ Derive
Spec == Init /\ [][Next]_vars
Conforms == ph # "bad"
=============================================================================
