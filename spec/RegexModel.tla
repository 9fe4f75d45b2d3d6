----------------------------- MODULE RegexModel -----------------------------
(* The specification of regular expressions against itself: on every         *)
(* expression of bounded size over a few overlapping classes and every       *)
(* string up to a bound, the position automaton accepts exactly what the     *)
(* denotation matches, its longest accepted prefix is the longest match, and *)
(* it has a future (some continuation is accepted) exactly while it is not   *)
(* empty. The string is chosen symbol by symbol as the automaton goes.       *)
(* VP_ASPECT: the bounds as "<operators><characters>", e.g. "23".            *)
EXTENDS TinyRegex, CaseFile

Classes == {<<"cls", <<<<97, 97>>>>>>, <<"cls", <<<<97, 98>>>>>>,
            <<"ncls", <<<<97, 97>>>>>>, <<"cls", <<<<98, 98>>, <<97, 97>>>>>>}
Letters == {97, 98, 99}
Bounds == CASE ASPECT = "13" -> <<1, 3>> [] ASPECT = "23" -> <<2, 3>>
            [] ASPECT = "24" -> <<2, 4>> [] ASPECT = "33" -> <<3, 3>>
            [] OTHER -> <<1, 2>>

Leaves0 == {Eps0} \cup {LeafOf(c) : c \in Classes}

VARIABLES r, a, w, S, best
vars == <<r, a, w, S, best>>

Init == \E n \in 0..Bounds[1] : \E t \in Trees(Leaves0, n) :
          /\ r = Numbered(t, 1)[1] /\ a = PosAut(r)
          /\ w = <<>> /\ S = PosStart
          /\ best = IF PosAccepts(a, PosStart) THEN 0 ELSE -1
Next == /\ Len(w) < Bounds[2]
        /\ \E c \in Letters :
             /\ w' = Append(w, c)
             /\ S' = PosStep(a, S, c)
             /\ best' = IF PosAccepts(a, S') THEN Len(w') ELSE best
        /\ UNCHANGED <<r, a>>
Spec == Init /\ [][Next]_vars

SameLanguage == PosAccepts(a, S) = Matches(r, w)
SamePrefix == best = LongestPrefix(r, w)
SameRun == S = PosRun(a, PosStart, w, 1)
\* characters of one cell of the partition are never told apart
Partition == \A c \in Letters : \E q \in Reps(RangesOf(Leaves(r))) :
               /\ q <= c /\ \A l \in Leaves(r) : LeafHas(l, q) = LeafHas(l, c)
\* nothing matches from a set of positions that is empty
Dead == (S = {}) => \A c \in Letters \cup {} : ~Matches(r, Append(w, c))
Conforms == SameLanguage /\ SamePrefix /\ SameRun /\ Partition /\ Dead
=============================================================================
