------------------------------ MODULE LrParse ------------------------------
(* The LALR(1) automaton of a grammar is built, one round per transition,    *)
(* and then runs as a shift/reduce machine, one move per transition:         *)
(*  aspect "runs":  on the recorded inputs of a case; the code must have     *)
(*                  accepted exactly the inputs the machine accepts (C12;    *)
(*                  long inputs and large grammars)                          *)
(*  aspect "model": on every token string up to the case's bound, chosen     *)
(*                  symbol by symbol as the machine goes; the machine must   *)
(*                  accept exactly the strings that the start symbol         *)
(*                  derives. This checks the specification against itself:   *)
(*                  the machine below against the derivations of Cfg.tla.    *)
(*  aspect "prefix": on every token string up to the bound: the machine gets *)
(*                  stuck on a symbol exactly when no sentence goes on with  *)
(*                  it (if every nonterminal derives something; otherwise it *)
(*                  may get stuck later, never earlier)                      *)
(*  aspect "where": as "runs", but judges what a rejected input was rejected  *)
(*                  for: the character no token starts with, or the token    *)
(*                  the machine cannot move on and the terminals it could    *)
(*                  have moved on (C23)                                      *)
(*                  ("where" also judges the messages of the type-level      *)
(*                  lexer and parser, C24)                                   *)
(* A case: [id, g, defs, runs, bound, known]; runs as in ParseTrace; under "where"   *)
(* a run also has what was said: [k, at, ch, name, hasval, val, valid, num,  *)
(* stack], k = "char" | "token" (Rust), "tchar" | "tsym" | "tend" | "tnum"   *)
(* (types), "" (nothing that could be read as any of these); known: the      *)
(* characters of the type-level table.                                       *)
EXTENDS LrMachine, Lexer, CaseFile

VARIABLES c, ph, N, F, H, seen, front, Q, r, pos, n, toks, cuts, st
vars == <<c, ph, N, F, H, seen, front, Q, r, pos, n, toks, cuts, st>>
View == <<c, ph, N, F, Cardinality(seen), Cardinality(front), r, pos, n,
          IF ASPECT \in {"model", "prefix"} THEN toks ELSE <<>>, IF ASPECT \in {"model", "prefix"} THEN st ELSE <<Len(st)>>>>

G == Cases[c].g
Defs == Cases[c].defs
Run == Cases[c].runs[r]
W == Run.w

Init == /\ c \in DOMAIN Cases
        /\ ph = "null" /\ N = {} /\ F = FirstZero(G) /\ H = <<>>
        /\ seen = {} /\ front = {} /\ Q = <<>>
        /\ r = 0 /\ pos = 1 /\ n = 0 /\ toks = <<>> /\ cuts = <<>> /\ st = <<>>
BuildVars == <<N, F, H, seen, front, Q>>
RunVars == <<r, pos, n, toks, cuts, st>>

Nullables ==
  /\ ph = "null"
  /\ N' = NullRound(G, N)
  /\ ph' = IF N' = N THEN "first" ELSE "null"
  /\ UNCHANGED <<c, F, H, seen, front, Q, RunVars>>
Firsts ==
  /\ ph = "first"
  /\ F' = FirstRound(G, F, N)
  /\ IF F' # F THEN ph' = "first" /\ UNCHANGED <<H, seen, front>>
     ELSE /\ ph' = "expand" /\ H' = Heads(G, F, N)
          /\ seen' = {StartKernel} /\ front' = {StartKernel}
  /\ UNCHANGED <<c, N, Q, RunVars>>
Expand ==
  /\ ph = "expand" /\ front # {}
  /\ LET cl == Closed(G, H, front)
         next == Onward(G, cl)
     IN /\ Q' = Absorb(Q, cl)
        /\ front' = next \ seen
        /\ seen' = seen \cup next
  /\ UNCHANGED <<c, ph, N, F, H, RunVars>>
Merged ==
  /\ ph = "expand" /\ front = {}
  /\ ph' = IF \E k \in DOMAIN Q : ConflictAt(G, Q[k]) # {} THEN "conflict"
           ELSE IF ASPECT \in {"model", "prefix"} THEN ASPECT ELSE "pick"
  /\ st' = StartStack
  /\ UNCHANGED <<c, N, F, H, seen, front, Q, r, pos, n, toks, cuts>>

\* ------------------------------------------------------------- recorded runs
Pick == /\ ph = "pick" /\ r' \in DOMAIN Cases[c].runs /\ ph' = "lex"
        /\ UNCHANGED <<c, BuildVars, pos, n, toks, cuts, st>>

\* what the report of a rejected input should be, and what is wrong with the one given
TokenOf(i) == Defs[CHOOSE t \in DOMAIN Defs : Defs[t].num = toks[i]]
TextOf(i) == SubSeq(W, cuts[i][1], cuts[i][2] - 1)
MovesOn(s) == {a \in Ts(G) \cup {EOF} : Actions(G, Q[s], a) # {}}
Said == Run.said
\* where the scan of a token at pos gets stuck: the first position at which no pattern can go on
RECURSIVE Reach(_, _, _)
Reach(a, S, i) ==
  IF i > Len(W) THEN i
  ELSE LET S2 == TLCEval(PosStep(a, S, W[i])) IN IF S2 = {} THEN i ELSE Reach(a, S2, i + 1)
StuckAt == MaxOf({Reach(TLCEval(PosAut(Defs[t].re)), PosStart, pos) : t \in DOMAIN Defs} \cup {pos})
TypeCharReport ==
  IF Said.k = "tnum" THEN "a token is reported although the text does not split into tokens"
  ELSE IF Said.k = "tchar" THEN "a character of the table is reported as unknown"
  ELSE LET q == StuckAt IN
       IF q > Len(W) THEN IF Said.k # "tend" THEN "the input ends within a token, but that is not reported"
                          ELSE IF Said.at # pos - 1 \/ Said.ch # W[pos] THEN "the unfinished token is reported at the wrong place"
                          ELSE ""
       ELSE IF Said.k # "tsym" THEN "the end of the input is reported although a character before it cannot follow"
       ELSE IF Said.at # q - 1 \/ Said.ch # W[q] THEN "the character that cannot follow is reported at the wrong place"
       ELSE ""
\* the symbols on the machine's stack, bottom first
SymbolsOn(s) == [i \in 1..(Len(s) - 1) |-> LET x == CHOOSE x \in s[i + 1] : x[2] > 0 IN Rhs(G, x[1])[x[2]]]
TypeTokenReport ==
  IF Said.k # "tnum" THEN "a character is reported although the text splits into tokens"
  ELSE IF Said.num # (IF pos <= Len(toks) THEN toks[pos] ELSE EOF) THEN "the wrong token is reported"
  ELSE IF Said.stack # SymbolsOn(st) THEN "the reported stack holds other symbols than those read so far"
  ELSE ""
Unknown == {i \in DOMAIN W : W[i] \notin SeqToSet(Cases[c].known)}
UnknownReport ==
  LET ch == W[MinOf(Unknown)] IN
  IF Said.k # "tchar" THEN "a character outside the table is not what is reported"
  ELSE IF Said.ch # ch /\ ch < 65536 THEN "the wrong character is reported as unknown"
  ELSE ""
CharReport ==
  IF Said.k = "token" THEN "a token is reported although the text does not split into tokens"
  ELSE IF Said.at # pos - 1 THEN "the character that starts no token is reported at the wrong index"
  ELSE IF Said.ch # W[pos] THEN "the wrong character is reported"
  ELSE ""
TokenReport ==
  IF Said.k = "char" THEN "a character is reported although the text splits into tokens"
  ELSE IF Said.hasval # (pos <= Len(toks)) THEN "the end of the input is confused with a token"
  ELSE IF pos <= Len(toks) /\ Said.name # TokenOf(pos).name THEN "the wrong token is reported"
  ELSE IF pos <= Len(toks) /\ Said.val # TextOf(pos) THEN "the reported token has the wrong text"
  ELSE IF SeqToSet(Said.valid) # MovesOn(Top(st)) THEN "the terminals reported as possible are not those the automaton can go on with"
  ELSE ""

Judge(accept, why) ==
  LET bad == IF ASPECT = "where" THEN
                IF accept \/ Run.res # "rejected" \/ Said.k = "" THEN ""
                ELSE IF Said.k \in {"char", "token"} THEN (IF ph = "lex" THEN CharReport ELSE TokenReport)
                ELSE IF Unknown # {} THEN UnknownReport
                ELSE IF ph = "lex" THEN TypeCharReport ELSE TypeTokenReport
             ELSE IF Run.res = "failed" THEN Run.note
             ELSE IF accept /\ Run.res = "rejected" THEN "a sentence is rejected"
             ELSE IF ~accept /\ Run.res = "accepted" THEN why
             ELSE ""
  IN /\ ph' = IF bad = "" THEN "ok" ELSE "bad"
     /\ bad # "" => PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, run |-> r, why |-> bad]))
     /\ PrintT("VPOUT " \o ToJson([s |-> accept, n |-> Len(toks), case |-> Cases[c].id, run |-> r, at |-> ph,
                                   steps |-> n, depth |-> Len(st), states |-> Cardinality(DOMAIN Q)]))

Lex ==
  /\ ph = "lex"
  /\ LET k == TokenAt(Defs, W, pos) IN
     IF k.hit THEN /\ pos' = k.e /\ toks' = Append(toks, Defs[k.t].num)
                   /\ cuts' = IF ASPECT = "where" THEN Append(cuts, <<pos, k.e>>) ELSE cuts
                   /\ UNCHANGED <<ph, n>>
     ELSE IF pos <= Len(W) /\ W[pos] \in Whitespace THEN pos' = pos + 1 /\ UNCHANGED <<ph, toks, cuts, n>>
     ELSE IF pos <= Len(W) THEN Judge(FALSE, "a text that does not split into tokens is accepted") /\ UNCHANGED <<pos, toks, cuts, n>>
     ELSE ph' = "run" /\ pos' = 1 /\ n' = 0 /\ UNCHANGED <<toks, cuts>>
  /\ UNCHANGED <<c, BuildVars, r, st>>

\* pos counts the tokens read, n the moves
Drive ==
  /\ ph = "run"
  /\ LET m == TLCEval(Move(G, Q, st, IF pos <= Len(toks) THEN toks[pos] ELSE EOF)) IN
     /\ n' = n + 1
     /\ CASE m.k = "stuck" -> Judge(FALSE, "a text that is no sentence is accepted") /\ UNCHANGED <<pos, st>>
          [] m.k = "a" -> Judge(TRUE, "") /\ UNCHANGED <<pos, st>>
          [] m.k = "s" -> st' = Shifted(st, m) /\ pos' = pos + 1 /\ UNCHANGED ph
          [] m.k = "r" -> st' = Reduced(G, Q, st, m) /\ UNCHANGED <<pos, ph>>
  /\ UNCHANGED <<c, BuildVars, r, toks, cuts>>

\* --------------------------------------------- machine against derivations
\* toks is what has been read; the next symbol is any terminal, or the end.
Verdict(accept) ==
  /\ ph' = IF accept = InLanguage(G, toks) THEN "ok" ELSE "bad"
  /\ ph' = "bad" => PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, run |-> 0,
                 why |-> "specification: the machine and the derivations disagree", toks |-> toks]))
  /\ PrintT("VPOUT " \o ToJson([s |-> accept, n |-> Len(toks), case |-> Cases[c].id]))
Model ==
  /\ ph = "model"
  /\ \E a \in Ts(G) \cup {EOF} :
       LET m == TLCEval(Move(G, Q, st, a)) IN
       /\ (m.k = "s" => Len(toks) < Cases[c].bound)
       /\ CASE m.k = "stuck" ->
                 IF a = EOF THEN Verdict(FALSE) /\ UNCHANGED <<toks, st, r>>
                 ELSE \* the machine stops here: no sentence may go on with a
                      Len(toks) < Cases[c].bound /\ toks' = Append(toks, a) /\ ph' = "dead" /\ r' = 0 /\ UNCHANGED st
            [] m.k = "a" -> Verdict(TRUE) /\ UNCHANGED <<toks, st, r>>
            [] m.k = "s" -> toks' = Append(toks, a) /\ st' = Shifted(st, m) /\ UNCHANGED <<ph, r>>
            [] m.k = "r" -> \* finish the reductions that a calls for before choosing anew
                 st' = Reduced(G, Q, st, m) /\ ph' = "model-on" /\ r' = a + 1 /\ UNCHANGED toks
  /\ UNCHANGED <<c, BuildVars, pos, n, cuts>>
ModelOn ==
  /\ ph = "model-on"
  /\ LET a == r - 1
         m == TLCEval(Move(G, Q, st, a)) IN
     CASE m.k = "stuck" ->
            IF a = EOF THEN Verdict(FALSE) /\ UNCHANGED <<toks, st, r>>
            ELSE Len(toks) < Cases[c].bound /\ toks' = Append(toks, a) /\ ph' = "dead" /\ r' = 0 /\ UNCHANGED st
       [] m.k = "a" -> Verdict(TRUE) /\ UNCHANGED <<toks, st, r>>
       [] m.k = "s" -> Len(toks) < Cases[c].bound /\ toks' = Append(toks, a) /\ st' = Shifted(st, m) /\ ph' = "model" /\ r' = 0
       [] m.k = "r" -> st' = Reduced(G, Q, st, m) /\ UNCHANGED <<ph, toks, r>>
  /\ UNCHANGED <<c, BuildVars, pos, n, cuts>>
\* after a prefix the machine has given up on, any continuation (up to the
\* bound) must not be a sentence either
Dead ==
  /\ ph = "dead"
  /\ \/ Verdict(FALSE) /\ UNCHANGED toks
     \/ \E a \in Ts(G) : Len(toks) < Cases[c].bound /\ toks' = Append(toks, a) /\ UNCHANGED ph
  /\ UNCHANGED <<c, BuildVars, r, pos, n, cuts, st>>

\* --------------------------------------------------- machine against prefixes
Prefix ==
  /\ ph = "prefix"
  /\ \E a \in Ts(G) \cup {EOF} :
       LET m == TLCEval(Settle(G, Q, st, a))
           stuck == m.k = "stuck"
           on == IF a = EOF THEN InLanguage(G, toks) ELSE Viable(G, Append(toks, a))
           bad == (stuck /\ on) \/ (~stuck /\ ~on /\ Productive(G, {}) = Nts(G))
       IN /\ PrintT("VPOUT " \o ToJson([case |-> Cases[c].id, stuck |-> stuck, n |-> Len(toks)]))
          /\ bad => PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, run |-> 0, toks |-> Append(toks, a),
                 why |-> "specification: the machine does not stop where the sentences do"]))
          /\ IF bad THEN ph' = "bad" /\ UNCHANGED <<toks, st>>
             ELSE IF m.k = "s" /\ Len(toks) + 1 < Cases[c].bound
             THEN toks' = Append(toks, a) /\ st' = m.st /\ UNCHANGED ph
             ELSE ph' = "ok" /\ UNCHANGED <<toks, st>>
  /\ UNCHANGED <<c, BuildVars, r, pos, n, cuts>>

Next == Prefix \/ Nullables \/ Firsts \/ Expand \/ Merged \/ Pick \/ Lex \/ Drive \/ Model \/ ModelOn \/ Dead
Spec == Init /\ [][Next]_vars
Conforms == ph # "bad"
Brief == [case |-> Cases[c].id, ph |-> ph, run |-> r, pos |-> pos, toks |-> toks]
=============================================================================
