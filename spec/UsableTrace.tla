---------------------------- MODULE UsableTrace ----------------------------
(* Which grammars stand for a language at all: one production is marked      *)
(* start, and every nonterminal that productions reach from there has an     *)
(* alternative. A walk over the nonterminals from the start decides; it is   *)
(* compared with the least set of nonterminals that are reached.             *)
(* A case: [id, ast, got]; ast: productions [n, s, bs], name, start mark and *)
(* alternatives, each a sequence of symbols [k, v]; got = "built" |          *)
(* "conflict" | "refused" | what else was done with the grammar.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CaseFile

VARIABLES c, seen, todo, st
vars == <<c, seen, todo, st>>
Ast == Cases[c].ast

Uses(b) == {b[n].v : n \in {m \in DOMAIN b : b[m].k = "nt"}}
At(ast, A) == {n \in DOMAIN ast : ast[n].n = A}
HasAlternative(ast, A) == \E n \in At(ast, A) : ast[n].bs # <<>>
UsedBy(ast, A) == UNION {UNION {Uses(ast[n].bs[m]) : m \in DOMAIN ast[n].bs} : n \in At(ast, A)}

\* ------------------------------------------------------------------ the walk
Init == c \in DOMAIN Cases /\ seen = {} /\ todo = {} /\ st = "start"
NoStart == /\ st = "start" /\ \A n \in DOMAIN Ast : ~Ast[n].s
           /\ st' = "unusable" /\ UNCHANGED <<c, seen, todo>>
Begin == /\ st = "start"
         /\ \E n \in DOMAIN Ast : /\ Ast[n].s /\ \A m \in 1..(n - 1) : ~Ast[m].s
                                  /\ todo' = {Ast[n].n}
         /\ st' = "walk" /\ UNCHANGED <<c, seen>>
Visit == /\ st = "walk" /\ todo # {}
         /\ LET A == CHOOSE x \in todo : TRUE IN
            IF HasAlternative(Ast, A)
            THEN /\ seen' = seen \cup {A}
                 /\ todo' = (todo \cup UsedBy(Ast, A)) \ seen'
                 /\ UNCHANGED <<c, st>>
            ELSE st' = "unusable" /\ UNCHANGED <<c, seen, todo>>
Walked == st = "walk" /\ todo = {} /\ st' = "usable" /\ UNCHANGED <<c, seen, todo>>

\* --------------------------------------------------------------- declaration
RECURSIVE ReachFix(_, _)
ReachFix(ast, R) == LET M == TLCEval(R \cup UNION {UsedBy(ast, A) : A \in R}) IN IF M = R THEN R ELSE ReachFix(ast, M)
Starts(ast) == {n \in DOMAIN ast : ast[n].s}
Reached(ast) == IF Starts(ast) = {} THEN {}
                ELSE ReachFix(ast, {ast[CHOOSE n \in Starts(ast) : \A m \in Starts(ast) : n <= m].n})
Usable(ast) == Starts(ast) # {} /\ \A A \in Reached(ast) : HasAlternative(ast, A)
\* nothing that is written, reached or not, uses a nonterminal without an alternative
\* reached nonterminals that derive something, if those without alternatives do: where one does
\* not, no sentence gets past it and what stands behind it is of no account
RECURSIVE DeriveFix(_, _, _)
DeriveFix(ast, R, D) ==
  LET M == TLCEval(D \cup {A \in R : ~HasAlternative(ast, A)}
                     \cup {A \in R : \E n \in At(ast, A) : \E m \in DOMAIN ast[n].bs : Uses(ast[n].bs[m]) \subseteq D})
  IN IF M = D THEN D ELSE DeriveFix(ast, R, M)
Fertile(ast) == DeriveFix(ast, Reached(ast), {}) = Reached(ast)
Sound(ast) == \A n \in DOMAIN ast : \A m \in DOMAIN ast[n].bs : \A A \in Uses(ast[n].bs[m]) : HasAlternative(ast, A)

Meaning == /\ st = "usable" => Usable(Ast) /\ seen = Reached(Ast)
           /\ st = "unusable" => ~Usable(Ast)

\* ---------------------------------------------------------------- conformance
Got == Cases[c].got
Why == IF Got \notin {"built", "conflict", "refused"} THEN Got
       ELSE IF st = "unusable" /\ Got = "built" /\ Fertile(Ast)
       THEN IF Starts(Ast) = {} THEN "tables from a grammar without a start production"
            ELSE "tables from a grammar that uses a nonterminal without an alternative"
       ELSE IF st = "usable" /\ Got = "refused" /\ Sound(Ast) THEN "refused although every nonterminal has an alternative"
       ELSE ""
Compare == /\ st \in {"usable", "unusable"}
           /\ \/ Why = "" /\ st' = "ok"
              \/ /\ Why # "" /\ st' = "bad"
                 /\ PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, why |-> Why]))
           /\ UNCHANGED <<c, seen, todo>>
Next == NoStart \/ Begin \/ Visit \/ Walked \/ Compare
Spec == Init /\ [][Next]_vars
Conforms == st # "bad"
=============================================================================
