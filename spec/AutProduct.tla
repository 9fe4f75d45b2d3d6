----------------------------- MODULE AutProduct -----------------------------
(* Product of the automata the code built for one pattern (NFA and DFA, as   *)
(* recorded edge lists) with the pattern's position automaton. Exploring it  *)
(* to the end decides, for ALL strings, whether each accepts exactly the     *)
(* pattern's language, and whether the DFA is deterministic.                 *)
EXTENDS Regex, CaseFile


ASSUME TLCSet(3, TLCEval([c \in DOMAIN Cases |-> PosAut(Cases[c].re)]))
Auts == TLCGet(3)
ASSUME Settled(3)
SeqSet(s) == {s[n] : n \in DOMAIN s}
\* adjacency: adj[q] = sequence of <<lo, hi, to>>, half open; lo = -1: empty move
EdgeRanges(adj) == UNION {{<<e[1], e[2] - 1>> : e \in {x \in SeqSet(adj[q]) : x[1] >= 0}} : q \in DOMAIN adj}
ASSUME TLCSet(4, TLCEval([c \in DOMAIN Cases |->
            Reps(RangesOf(Leaves(Cases[c].re)) \cup EdgeRanges(Cases[c].nfa.adj) \cup EdgeRanges(Cases[c].dfa.adj))]))
Chars == TLCGet(4)
ASSUME Settled(4)
ASSUME TLCSet(5, TLCEval([c \in DOMAIN Cases |-> SeqSet(Cases[c].nfa.acc)]))
NAcc == TLCGet(5)
ASSUME Settled(5)
ASSUME TLCSet(6, TLCEval([c \in DOMAIN Cases |-> SeqSet(Cases[c].dfa.acc)]))
DAcc == TLCGet(6)
ASSUME Settled(6)

RECURSIVE EpsClosure(_, _, _)
EpsClosure(adj, acc, front) ==
  IF front = {} THEN acc
  ELSE LET new == UNION {{e[3] : e \in {x \in SeqSet(adj[q]) : x[1] = -1}} : q \in front} \ acc
       IN EpsClosure(adj, acc \cup new, new)
Closure(adj, Q) == EpsClosure(adj, Q, Q)
Moves(adj, Q, a) == UNION {{e[3] : e \in {x \in SeqSet(adj[q]) : x[1] >= 0 /\ x[1] <= a /\ a < x[2]}} : q \in Q}

VARIABLES c,   \* case
          S,   \* state of the position automaton
          N,   \* NFA states, closed under empty moves
          D,   \* DFA states: at most one
          w    \* how we got here (not part of the state)
vars == <<c, S, N, D, w>>
View == <<c, S, N, D>>

Init == /\ c \in DOMAIN Cases
        /\ S = PosStart
        /\ N = Closure(Cases[c].nfa.adj, {1})
        /\ D = {1}
        /\ w = <<>>
Next == /\ S # {} \/ N # {} \/ D # {}
        /\ Cardinality(D) <= 1
        /\ \E a \in Chars[c] :
             /\ S' = PosStep(Auts[c], S, a)
             /\ N' = Closure(Cases[c].nfa.adj, Moves(Cases[c].nfa.adj, N, a))
             /\ D' = Moves(Cases[c].dfa.adj, D, a)
             /\ w' = Append(w, a)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Acc == PosAccepts(Auts[c], S)
Why == IF Cardinality(D) > 1 THEN "a character leads to two successor states"
       ELSE IF (D \cap DAcc[c] # {}) # Acc THEN (IF Acc THEN "DFA rejects a matching string" ELSE "DFA accepts a string that does not match")
       ELSE IF ASPECT = "language" /\ (N \cap NAcc[c] # {}) # Acc THEN (IF Acc THEN "NFA rejects a matching string" ELSE "NFA accepts a string that does not match")
       ELSE ""
Conforms == IF Why = "" THEN TRUE
            ELSE ~PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, w |-> w, why |-> Why]))
=============================================================================
