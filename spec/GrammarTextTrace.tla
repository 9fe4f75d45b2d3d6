-------------------------- MODULE GrammarTextTrace --------------------------
(* Reads each recorded grammar text token by token with GrammarText and      *)
(* compares the productions (or the rejection) with what the code recorded.  *)
(* A case: [id, w, res, ast, note]: res = "ast" | "rejected" | "failed".     *)
EXTENDS GrammarText, CaseFile
VARIABLES c, pos, m, st
vars == <<c, pos, m, st>>
W == Cases[c].w

Init == c \in DOMAIN Cases /\ pos = 1 /\ m = Begin /\ st = "read"

Read ==
  /\ st = "read"
  /\ LET i == SkipWhite(W, pos) IN
     IF i > Len(W) THEN st' = "end" /\ UNCHANGED <<pos, m>>
     ELSE LET t == Lexeme(W, i) IN
          IF t.k = "error" THEN m' = Fail(m) /\ st' = "end" /\ UNCHANGED pos
          ELSE /\ m' = Feed(m, t)
               /\ pos' = t.n
               /\ st' = IF m'.st = "fail" THEN "end" ELSE "read"
  /\ UNCHANGED c

Why ==
  LET r == Cases[c].res IN
  IF r = "failed" THEN Cases[c].note
  ELSE IF Whole(m) /\ r = "rejected" THEN "a grammar text is rejected"
  ELSE IF ~Whole(m) /\ r = "ast" THEN "a text that is no grammar is accepted"
  ELSE IF Whole(m) /\ Cases[c].ast # m.prods THEN
    IF Len(Cases[c].ast) # Len(m.prods) THEN "not the productions of the text"
    ELSE LET n == CHOOSE n \in DOMAIN m.prods : m.prods[n] # Cases[c].ast[n]
             a == Cases[c].ast[n]
             b == m.prods[n]
         IN IF a.name # b.name THEN "wrong production name"
            ELSE IF a.start # b.start THEN "wrong start marker"
            ELSE IF a.ts # b.ts THEN "wrong type code"
            ELSE IF Len(a.bodies) # Len(b.bodies) THEN "wrong number of alternatives"
            ELSE IF \E k \in DOMAIN a.bodies : a.bodies[k].fn # b.bodies[k].fn THEN "wrong mapping code"
            ELSE "wrong symbols"
  ELSE ""
End ==
  /\ st = "end"
  /\ LET why == Why IN
     /\ st' = IF why = "" THEN "ok" ELSE "bad"
     /\ why # "" => PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, why |-> why]))
     /\ PrintT("VPOUT " \o ToJson([case |-> Cases[c].id, valid |-> Whole(m), n |-> Len(m.prods)]))
  /\ UNCHANGED <<c, pos, m>>
Next == Read \/ End
Spec == Init /\ [][Next]_vars
Conforms == st # "bad"
View == <<c, pos, st>>
=============================================================================
