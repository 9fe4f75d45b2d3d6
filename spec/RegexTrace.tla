----------------------------- MODULE RegexTrace -----------------------------
(* Recorded answers of the pattern automata (NFA::simulate, DFA::test,       *)
(* DFA::simulate) against the denotation of the pattern.                     *)
EXTENDS Regex, CaseFile

VARIABLES c, r, st
vars == <<c, r, st>>
Init == c \in DOMAIN Cases /\ r \in DOMAIN Cases[c].runs /\ st = "asked"

Re == Cases[c].re
Run == Cases[c].runs[r]
ASSUME TLCSet(3, TLCEval([x \in DOMAIN Cases |-> PosAut(Cases[x].re)]))
Auts == TLCGet(3)
ASSUME Settled(3)
\* Read as far as a match can still follow, then: does what was read match?
RECURSIVE Sim(_, _, _, _)
Sim(a, S, w, i) ==
  LET S2 == IF i <= Len(w) THEN PosStep(a, S, w[i]) ELSE {} IN
  IF S2 # {} THEN Sim(a, S2, w, i + 1)
  ELSE IF PosAccepts(a, S) THEN i - 1 ELSE -1
Why ==
  LET e == Ends(Re, Run.w, {1})
      m == (Len(Run.w) + 1) \in e
      lp == Sim(Auts[c], PosStart, Run.w, 1)
      B == IF m THEN 1 ELSE 0
  IN IF Run.note # "" THEN Run.note
     ELSE IF ASPECT = "language" /\ Run.nfa # B THEN "NFA::simulate is wrong"
     ELSE IF Run.test # B THEN "DFA::test is wrong"
     ELSE IF ASPECT = "language" /\ Run.sim # lp THEN "DFA::simulate is wrong"
     ELSE ""
Next == /\ st = "asked"
        /\ \/ Why = "" /\ st' = "ok"
           \/ /\ Why # "" /\ st' = "bad"
              /\ PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, run |-> r, w |-> Run.w, why |-> Why]))
        /\ UNCHANGED <<c, r>>
Spec == Init /\ [][Next]_vars
Conforms == st # "bad"
=============================================================================
