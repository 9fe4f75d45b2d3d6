----------------------------- MODULE LexTrace -----------------------------
(* Conformance of recorded lexer runs: every case is a list of token         *)
(* definitions with recorded runs <<input, tokens>>. A run is replayed       *)
(* through the machine of Lexer.tla; each step must explain the next         *)
(* recorded token. ASPECT selects which part of the behaviour is judged:     *)
(*   "longest"  token boundaries                          (C03)              *)
(*   "ties"     which definition wins, given the text     (C04)              *)
(*   "slices"   input = tokens + skipped white space      (C05)              *)
(*   "all"      everything at once                        (C02, C16)         *)
EXTENDS Lexer, CaseFile


VARIABLES c, r, pos, k, st
vars == <<c, r, pos, k, st>>

Defs == Cases[c].defs
Run == Cases[c].runs[r]
W == Run.w
Out == Run.out

Init == /\ c \in DOMAIN Cases
        /\ r \in DOMAIN Cases[c].runs
        /\ pos = 1 /\ k = 1 /\ st = "run"

Bad(why) ==
  /\ PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, run |-> r, pos |-> pos, token |-> k, why |-> why]))
  /\ st' = "bad" /\ UNCHANGED <<c, r, pos, k>>
Done == st' = "done" /\ UNCHANGED <<c, r, pos, k>>
Skip == pos' = pos + 1 /\ UNCHANGED <<c, r, k, st>>
Emit(e) == pos' = e /\ k' = k + 1 /\ UNCHANGED <<c, r, st>>

Slice(e) == SubSeq(W, pos, e - 1)
AtWhite == pos <= Len(W) /\ W[pos] \in Whitespace
More == k <= Len(Out)
SameName(t) == Out[k].name = Defs[t].name
SameNum(t) == Out[k].num = -1 \/ Out[k].num = Defs[t].num

StepLongest(h) ==
  IF h.hit THEN
    IF ~More THEN Bad("no token although a pattern matches here")
    ELSE IF Out[k].val # Slice(h.e) THEN Bad("not the longest match at this position")
    ELSE Emit(h.e)
  ELSE IF AtWhite THEN Skip ELSE Done

StepTies(h) ==
  IF h.hit THEN
    IF ~More \/ (Out[k].hasval /\ Out[k].val # Slice(h.e)) THEN Done
    ELSE IF ~SameName(h.t) THEN Bad("another definition has priority for this text")
    ELSE IF ~SameNum(h.t) THEN Bad("wrong token number")
    ELSE Emit(h.e)
  ELSE IF AtWhite THEN Skip ELSE Done

\* follows the recorded lengths, whatever they are
StepSlices(h) ==
  IF More THEN
    LET ts == {t \in DOMAIN Defs : Defs[t].name = Out[k].name} IN
    IF ~h.hit /\ AtWhite THEN Skip
    ELSE IF ts = {} THEN Bad("token of an unknown kind")
    ELSE LET d == Defs[MinOf(ts)] IN
         IF Out[k].hasval # d.val THEN Bad("token value present iff declared")
         ELSE IF ~d.val THEN (IF h.hit THEN Emit(h.e) ELSE Bad("token where nothing matches"))
         ELSE LET e == pos + Len(Out[k].val) IN
              IF e = pos \/ e > Len(W) + 1 THEN Bad("token value is not a slice of the input here")
              ELSE IF Slice(e) # Out[k].val THEN Bad("token value is not a slice of the input here")
              ELSE IF ~h.hit THEN Bad("token where nothing matches")
              ELSE Emit(e)
  ELSE IF h.hit THEN Bad("stopped where a pattern matches")
  ELSE IF AtWhite THEN Skip
  ELSE Done

StepAll(h) ==
  IF h.hit THEN
    IF ~More THEN Bad("no token although a pattern matches here")
    ELSE IF Out[k].hasval # Defs[h.t].val THEN Bad("token value present iff declared")
    ELSE IF Out[k].hasval /\ Out[k].val # Slice(h.e) THEN Bad("wrong token text")
    ELSE IF ~SameName(h.t) THEN Bad("wrong token kind")
    ELSE IF ~SameNum(h.t) THEN Bad("wrong token number")
    ELSE Emit(h.e)
  ELSE IF AtWhite THEN Skip
  ELSE IF More THEN Bad("token where nothing matches")
  ELSE Done

\* a run that reports an error: only the type-level lexer does, and exactly
\* when the input is not tokenised to its end or holds an unknown character
ErrorExpected ==
  \/ LexAll(Defs, W).stop # Len(W) + 1
  \/ \E i \in DOMAIN W : W[i] \notin {Run.known[n] : n \in DOMAIN Run.known}

\* An evaluator of finite depth may give up on inputs that need many moves, not on others.
MovesGranted == 330

Judge ==
  IF Run.res = "fail" THEN Bad("no answer: " \o Run.note)
  ELSE IF Run.res = "none"
       THEN IF Moves(Defs, W) > MovesGranted THEN Done ELSE Bad("no answer: neither a token list nor an error")
  ELSE IF Run.strict /\ k = 1 /\ pos = 1 /\ (Run.res = "error") # ErrorExpected
       THEN Bad(IF Run.res = "error" THEN "error for input that can be tokenised"
                                      ELSE "token list for input that cannot be tokenised")
  ELSE IF Run.res = "error" THEN Done
  ELSE LET h == TokenAt(Defs, W, pos) IN
       CASE ASPECT = "longest" -> StepLongest(h)
         [] ASPECT = "ties"    -> StepTies(h)
         [] ASPECT = "slices"  -> StepSlices(h)
         [] ASPECT = "all"     -> StepAll(h)

Next == st = "run" /\ Judge
Spec == Init /\ [][Next]_vars
Conforms == st # "bad"
=============================================================================
