------------------------------ MODULE LexModel ------------------------------
(* The specification of the lexer against itself: a scanner that reads one   *)
(* character at a time, on all position automata at once, remembers the last *)
(* place where one of them accepted and goes back there when none can go on, *)
(* computes the tokens that Lexer.tla defines. All lists of two patterns     *)
(* with a bounded number of operators, all inputs up to a bound; the next    *)
(* character, or the end, is chosen when the scanner first asks for it.      *)
(* VP_ASPECT: the bounds as "<operators><characters>".                       *)
EXTENDS Lexer, TinyRegex, CaseFile

Classes == {<<"cls", <<<<97, 97>>>>>>, <<"ncls", <<<<97, 98>>>>>>, <<"cls", <<<<97, 98>>>>>>}
Letters == {97, 98, 32}
Bounds == CASE ASPECT = "13" -> <<1, 3>> [] ASPECT = "14" -> <<1, 4>> [] ASPECT = "15" -> <<1, 5>>
            [] ASPECT = "23" -> <<2, 3>> [] OTHER -> <<0, 3>>

AllTrees == UNION {Trees({LeafOf(c) : c \in Classes}, n) : n \in 0..Bounds[1]}

\* after a match, at least two more characters: the scanner may have to go back
Longer == {[Eps0 EXCEPT !.k = "cat", !.xs = <<LeafOf(c), y>>] : c \in Classes, y \in Trees({LeafOf(d) : d \in Classes}, 1)}

VARIABLES defs, A, w, ended, pos, i, S, last, out, ph
vars == <<defs, A, w, ended, pos, i, S, last, out, ph>>

Start == [t \in DOMAIN defs |-> PosStart]
None == [t |-> 0, e |-> 0]
Init ==
  /\ \E x \in AllTrees, y \in AllTrees \cup Longer :
       LET d == <<Numbered(x, 1)[1], Numbered(y, 1)[1]>> IN
       /\ defs = [t \in 1..2 |-> [name |-> <<t>>, val |-> TRUE, re |-> d[t], num |-> t]]
       /\ A = [t \in 1..2 |-> PosAut(d[t])]
  /\ w = <<>> /\ ended = FALSE /\ pos = 1 /\ i = 1
  /\ S = Start /\ last = None /\ out = <<>> /\ ph = "read"

Choose ==
  /\ ph = "read" /\ i = Len(w) + 1 /\ ~ended
  /\ \/ ended' = TRUE /\ UNCHANGED w
     \/ \E c \in Letters : Len(w) < Bounds[2] /\ w' = Append(w, c) /\ UNCHANGED ended
  /\ UNCHANGED <<defs, A, pos, i, S, last, out, ph>>
Read ==
  /\ ph = "read" /\ i <= Len(w)
  /\ LET T == [t \in DOMAIN defs |-> PosStep(A[t], S[t], w[i])]
         acc == {t \in DOMAIN defs : PosAccepts(A[t], T[t])}
     IN IF \A t \in DOMAIN defs : T[t] = {} THEN ph' = "emit" /\ UNCHANGED <<i, S, last>>
        ELSE /\ S' = T /\ i' = i + 1 /\ UNCHANGED ph
             /\ last' = IF acc = {} THEN last ELSE [t |-> MinOf(acc), e |-> i + 1]
  /\ UNCHANGED <<defs, A, w, ended, pos, out>>
AtEnd ==
  /\ ph = "read" /\ i = Len(w) + 1 /\ ended /\ ph' = "emit"
  /\ UNCHANGED <<defs, A, w, ended, pos, i, S, last, out>>
Emit ==
  /\ ph = "emit"
  /\ IF last.t # 0 THEN
       /\ out' = Append(out, [t |-> last.t, b |-> pos, e |-> last.e])
       /\ pos' = last.e /\ i' = last.e /\ S' = Start /\ last' = None /\ ph' = "read"
     ELSE IF pos <= Len(w) /\ w[pos] \in Whitespace THEN
       /\ pos' = pos + 1 /\ i' = pos + 1 /\ S' = Start /\ ph' = "read" /\ UNCHANGED <<out, last>>
     ELSE ph' = "done" /\ UNCHANGED <<pos, i, S, last, out>>
  /\ UNCHANGED <<defs, A, w, ended>>

Next == Choose \/ Read \/ AtEnd \/ Emit
Spec == Init /\ [][Next]_vars

SameTokens == (ph = "done") => LexAll(defs, w) = [toks |-> out, stop |-> pos]
\* tokens follow each other in order, never empty, only white space between
Between(b, e) == \A j \in b..e-1 : w[j] \in Whitespace
Sound == /\ \A n \in DOMAIN out : out[n].b < out[n].e
         /\ \A n \in DOMAIN out : Between(IF n = 1 THEN 1 ELSE out[n-1].e, out[n].b)
Conforms == SameTokens /\ Sound
=============================================================================
