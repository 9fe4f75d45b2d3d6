------------------------------ MODULE WordGen ------------------------------
(* Behaviours of the pattern automata, to be replayed into the code: for     *)
(* every reachable state of the (joint) position automaton and every         *)
(* representative character (on either side of a change) one word through that transition.        *)
EXTENDS Regex, CaseFile

MAXLEN == 14

AltOf(c) == [k |-> "alt", rs |-> <<>>, xs |-> Cases[c].res, mn |-> 0, mx |-> 0, p |-> 0]
ASSUME TLCSet(3, TLCEval([c \in DOMAIN Cases |-> PosAut(AltOf(c))]))
Auts == TLCGet(3)
ASSUME Settled(3)
ASSUME TLCSet(4, TLCEval([c \in DOMAIN Cases |-> {x \in Cuts(RangesOf(Leaves(AltOf(c)))) : IsScalar(x)}]))
CutsOf == TLCGet(4)
ASSUME Settled(4)
\* the characters on either side of each place where the successor changes
Edge(c, S) ==
  {0} \cup UNION {LET lo == IF y = 57344 THEN 55295 ELSE y - 1 IN
                  IF y > 0 /\ PosStep(Auts[c], S, lo) # PosStep(Auts[c], S, y) THEN {lo, y} ELSE {}
                  : y \in CutsOf[c]}

VARIABLES c, S, w
vars == <<c, S, w>>
View == <<c, S>>

Init == c \in DOMAIN Cases /\ S = PosStart /\ w = <<>>
Next == /\ S # {} /\ Len(w) < MAXLEN
        /\ \E a \in Edge(c, S) :
             /\ S' = PosStep(Auts[c], S, a)
             /\ w' = Append(w, a)
             /\ PrintT("VPOUT " \o ToJson([case |-> Cases[c].id, w |-> w', live |-> S' # {}, acc |-> PosAccepts(Auts[c], S')]))
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
