----------------------------- MODULE LalrTrace -----------------------------
(* Builds the LALR(1) automaton of each recorded grammar, one round per      *)
(* transition, and judges what the code recorded for it:                     *)
(*   "first"    FIRST sets                                        (C08)      *)
(*   "items"    the collection of states                          (C09)      *)
(*   "tables"   action and goto tables, walked from state 0       (C10)      *)
(*   "conflict" whether a conflict is reported                    (C11)      *)
(*   "module"   a generated parser module                         (C15)      *)
(* A case: [id, g, ...] plus, per aspect,                                    *)
(*   first: sequence of [s, f]: symbol, its recorded FIRST set               *)
(*   items: sequence (over states) of sequences of [p, d, las]               *)
(*   act: per state a sequence of [t, k, n]; goto: per state [s, n]          *)
(*   built: "tables" | "conflict" | some other outcome                       *)
EXTENDS Lalr, CaseFile

VARIABLES c, ph, N, F, H, seen, front, Q, s, q
vars == <<c, ph, N, F, H, seen, front, Q, s, q>>
\* seen and front only grow or empty: their sizes tell the rounds apart
View == <<c, ph, N, F, Cardinality(seen), Cardinality(front), s, q>>

G == Cases[c].g
Bad(why, x) == PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, why |-> why, at |-> x]))

Init == /\ c \in DOMAIN Cases
        /\ ph = "null" /\ N = {} /\ F = FirstZero(G) /\ H = <<>>
        /\ seen = {} /\ front = {} /\ Q = <<>>
        /\ s = 0 /\ q = {}

Nullables ==
  /\ ph = "null"
  /\ N' = NullRound(G, N)
  /\ ph' = IF N' = N THEN "first" ELSE "null"
  /\ UNCHANGED <<c, F, H, seen, front, Q, s, q>>

Firsts ==
  /\ ph = "first"
  /\ F' = FirstRound(G, F, N)
  /\ IF F' # F THEN ph' = "first" /\ UNCHANGED <<H, seen, front>>
     ELSE IF ASPECT = "first" THEN ph' = "judge" /\ UNCHANGED <<H, seen, front>>
     ELSE /\ ph' = "expand" /\ H' = Heads(G, F, N)
          /\ seen' = {StartKernel} /\ front' = {StartKernel}
  /\ UNCHANGED <<c, N, Q, s, q>>

Conflicts == {k \in DOMAIN Q : ConflictAt(G, Q[k]) # {}}

\* all canonical states on the frontier at once; their item sets go into Q,
\* merged by core
Expand ==
  /\ ph = "expand" /\ front # {}
  /\ LET cl == Closed(G, H, front)
         next == Onward(G, cl)
     IN /\ Q' = Absorb(Q, cl)
        /\ front' = next \ seen
        /\ seen' = seen \cup next
  /\ ph' = "expand"
  /\ UNCHANGED <<c, N, F, H, s, q>>

Merged ==
  /\ ph = "expand" /\ front = {}
  /\ ph' = CASE ASPECT \notin {"tables", "module"} -> "judge"
             [] Conflicts # {} -> "ok"
             [] ASPECT = "tables" -> "walk"
             [] OTHER -> "module"
  /\ s' = 1 /\ q' = Core(StartKernel)
  /\ UNCHANGED <<c, N, F, H, seen, front, Q>>

\* -------------------------------------------------------------------- judging
WhyFirst ==
  LET rec == Cases[c].first
      want(x) == IF x \in DOMAIN F THEN F[x] ELSE {x}
      off == {n \in DOMAIN rec : SeqToSet(rec[n].f) # want(rec[n].s)}
      asked == {rec[n].s : n \in DOMAIN rec}
  IN IF Cases[c].note # "" THEN Cases[c].note
     ELSE IF off # {} THEN LET n == CHOOSE n \in off : TRUE IN
          IF SeqToSet(rec[n].f) \ want(rec[n].s) # {} THEN "FIRST set with a terminal that cannot come first"
          ELSE "FIRST set without a terminal that can come first"
     ELSE IF ~((Nts(G) \ {G.prods[1].l}) \cup Ts(G) \subseteq asked \cup {EOF}) THEN "a symbol has no FIRST set"
     ELSE ""

\* closed item set as recorded
RecItems(st) == [y \in {<<x.p, x.d>> : x \in SeqToSet(st)} |->
                  UNION {SeqToSet(x.las) : x \in {z \in SeqToSet(st) : <<z.p, z.d>> = y}}]
WhyItems ==
  LET rec == TLCEval([n \in DOMAIN Cases[c].items |-> RecItems(Cases[c].items[n])])
      want == TLCEval({Q[k] : k \in DOMAIN Q})
      have == TLCEval({rec[n] : n \in DOMAIN rec})
  IN IF Cases[c].note # "" THEN Cases[c].note
     ELSE IF Cardinality(have) # Len(rec) THEN "a state occurs twice"
     ELSE IF want = have THEN ""
     ELSE IF Cardinality({DOMAIN I : I \in have}) # Len(rec) THEN "two states with the same core"
     ELSE IF {DOMAIN I : I \in have} # {DOMAIN I : I \in want} THEN "not the LALR(1) states"
     ELSE "a state with wrong lookaheads"

WhyConflict ==
  LET b == Cases[c].built IN
  IF b \notin {"tables", "conflict"} THEN b
  ELSE IF b = "tables" /\ Conflicts # {} THEN "a grammar with a conflict is accepted"
  ELSE IF b = "conflict" /\ Conflicts = {} THEN "a conflict is reported for a grammar that has none"
  ELSE ""

Judge ==
  /\ ph = "judge"
  /\ LET why == CASE ASPECT = "first" -> WhyFirst
                  [] ASPECT = "items" -> IF Conflicts # {} THEN "" ELSE WhyItems
                  [] ASPECT = "conflict" -> WhyConflict
     IN /\ ph' = IF why = "" THEN "ok" ELSE "bad"
        /\ why # "" => Bad(why, "")
        /\ PrintT("VPOUT " \o ToJson([case |-> Cases[c].id, lr1 |-> Cardinality(seen), lalr |-> Cardinality(DOMAIN Q),
               confl |-> IF ASPECT = "first" THEN 0 ELSE Cardinality(Conflicts)]))
  /\ UNCHANGED <<c, N, F, H, seen, front, Q, s, q>>

\* ---------------------------- a generated parser module: everything but tables
\* keys: [s, k, v] for every symbol; listed are those on right sides; m: the
\* module's listings; texts are code points. mk: symbol kinds of the stack.
WhyModule ==
  LET m == Cases[c].mod
      used == {EOF} \cup UNION {SeqToSet(Rhs(G, p)) : p \in DOMAIN G.prods}
      keys == {x \in SeqToSet(Cases[c].keys) : x.s \in used}
      declared == {x \in SeqToSet(Cases[c].keys) : x.k = "nt" /\ x.s # G.prods[1].l}
      same(x, y) == x.k = y.k /\ x.v = y.v
      idOf(n) == LET ys == {y \in SeqToSet(m.syms) : y.n = n}
                     xs == {x \in keys : \E y \in ys : same(x, y)}
                 IN IF xs = {} THEN -1 ELSE (CHOOSE x \in xs : TRUE).s
      keyOf(id) == CHOOSE x \in SeqToSet(Cases[c].keys) : x.s = id
      numOf(id) == {y.n : y \in {z \in SeqToSet(m.syms) : same(z, keyOf(id))}}
      name(p) == keyOf(G.prods[p].l).v
      terminals == {x \in keys : x.s # EOF /\ x.k # "nt"}
      kinds == {<<m.eofkind, n>> : n \in numOf(EOF)} \cup UNION {{<<x.v, n>> : n \in numOf(x.s)} : x \in terminals}
  IN IF Cases[c].note # "" THEN Cases[c].note
     ELSE IF {[k |-> x.k, v |-> x.v] : x \in keys} # {[k |-> x.k, v |-> x.v] : x \in SeqToSet(m.syms)}
          THEN "the symbols listed are not those of the grammar"
     ELSE IF Len(m.syms) # Cardinality(keys) THEN "a symbol is listed twice"
     ELSE IF {x.n : x \in SeqToSet(m.prods)} # {p - 1 : p \in DOMAIN G.prods} THEN "the productions are not numbered as in the grammar"
     ELSE IF \E x \in SeqToSet(m.prods) : x.name # name(x.n + 1) THEN "a production with the name of another nonterminal"
     ELSE IF \E x \in SeqToSet(m.prods) : [n \in DOMAIN x.t |-> idOf(x.t[n])] # Rhs(G, x.n + 1) THEN "a production with other symbols"
     ELSE IF {<<x.k, x.n>> : x \in SeqToSet(m.kinds)} # kinds THEN "token kinds are not mapped to their symbols"
     ELSE IF SeqToSet(m.stack) # {m.tokkind} \cup {x.v : x \in declared} THEN "the kinds of stack symbols are not those of the grammar"
     ELSE ""
Module ==
  /\ ph = "module"
  /\ LET why == WhyModule IN
     /\ ph' = IF why = "" THEN "walk" ELSE "bad"
     /\ why # "" => Bad(why, "")
     /\ PrintT("VPOUT " \o ToJson([case |-> Cases[c].id, lr1 |-> Cardinality(seen), lalr |-> Cardinality(DOMAIN Q), confl |-> 0]))
  /\ UNCHANGED <<c, N, F, H, seen, front, Q, s, q>>

\* ------------------------------------------- tables: both automata in lockstep
Row == Cases[c].act[s]
GRow == Cases[c].goto[s]
WhyRow ==
  IF Cases[c].note # "" THEN Cases[c].note
  ELSE LET las == Lookaheads(G, Q[q])
           act(a) == CHOOSE y \in Actions(G, Q[q], a) : TRUE
           kinds == {<<a, act(a).k, IF act(a).k = "r" THEN act(a).p ELSE 0>> : a \in las}
           have == {<<x.t, x.k, IF x.k = "r" THEN x.n ELSE 0>> : x \in SeqToSet(Row)}
           gw == SymbolsAfterDot(G, Q[q]) \cap Nts(G)
           gh == {x.s : x \in SeqToSet(GRow)}
       IN IF have \ kinds # {} THEN "an action that the automaton does not have"
          ELSE IF kinds \ have # {} THEN "an action is missing"
          ELSE IF Len(Row) # Cardinality(have) THEN "two actions for one terminal"
          ELSE IF gh \ gw # {} THEN "a goto entry that the automaton does not have"
          ELSE IF gw \ gh # {} THEN "a goto entry is missing"
          ELSE IF Len(GRow) # Cardinality(gh) THEN "two goto entries for one nonterminal"
          ELSE ""
Moves == {<<x.t, x.n>> : x \in {y \in SeqToSet(Row) : y.k = "s"}} \cup {<<x.s, x.n>> : x \in SeqToSet(GRow)}

Walk ==
  /\ ph = "walk"
  /\ IF Cases[c].note = "" /\ s \notin DOMAIN Cases[c].act
     THEN /\ ph' = "bad" /\ Bad("an entry leads to a state that does not exist", s)
          /\ UNCHANGED <<s, q>>
     ELSE LET why == WhyRow IN
          IF why # "" THEN ph' = "bad" /\ Bad(why, [state |-> s]) /\ UNCHANGED <<s, q>>
          ELSE \E m \in Moves : /\ s' = m[2] /\ q' = Target(G, Q[q], m[1])
                           /\ ph' = "walk"
  /\ UNCHANGED <<c, N, F, H, seen, front, Q>>

Next == Nullables \/ Firsts \/ Expand \/ Merged \/ Judge \/ Module \/ Walk
Spec == Init /\ [][Next]_vars
Conforms == ph # "bad"
=============================================================================
