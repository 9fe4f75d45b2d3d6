----------------------------- MODULE ParseTrace -----------------------------
(* Recorded parser runs on texts: a text is accepted iff it splits into      *)
(* tokens to its end and the start symbol derives the token sequence.        *)
(* A case: [id, g, defs, runs]; a definition's num is its symbol in g; a run *)
(* is [w, res, note], res = "accepted" | "rejected" | "failed".              *)
EXTENDS Lexer, Cfg, CaseFile

VARIABLES c, r, ph, pos, toks, D, st
vars == <<c, r, ph, pos, toks, D, st>>

G == Cases[c].g
Defs == Cases[c].defs
Run == Cases[c].runs[r]
W == Run.w

Init == /\ c \in DOMAIN Cases /\ r \in DOMAIN Cases[c].runs
        /\ ph = "lex" /\ pos = 1 /\ toks = <<>> /\ D = <<>> /\ st = ""

Judge(accept, why) ==
  LET bad == IF Run.res = "failed" THEN Run.note
             ELSE IF accept /\ Run.res = "rejected" THEN "a sentence is rejected"
             ELSE IF ~accept /\ Run.res = "accepted" THEN why
             ELSE ""
  IN /\ ph' = IF bad = "" THEN "ok" ELSE "bad"
     /\ st' = IF accept THEN "sentence" ELSE "other"
     /\ bad # "" => PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, run |-> r, why |-> bad, toks |-> toks]))
     /\ PrintT("VPOUT " \o ToJson([s |-> accept, n |-> Len(toks), case |-> Cases[c].id, run |-> r]))

Lex ==
  /\ ph = "lex"
  /\ LET k == TokenAt(Defs, W, pos) IN
     IF k.hit THEN /\ pos' = k.e /\ toks' = Append(toks, Defs[k.t].num)
                   /\ UNCHANGED <<ph, D, st>>
     ELSE IF pos <= Len(W) /\ W[pos] \in Whitespace THEN pos' = pos + 1 /\ UNCHANGED <<ph, toks, D, st>>
     ELSE IF pos <= Len(W) THEN Judge(FALSE, "a text that does not split into tokens is accepted") /\ UNCHANGED <<pos, toks, D>>
     ELSE /\ ph' = "derive"
          /\ D' = TLCEval([x \in Nts(G) \X (1..(Len(toks) + 1)) |-> {}])
          /\ UNCHANGED <<pos, toks, st>>
  /\ UNCHANGED <<c, r>>

Derive ==
  /\ ph = "derive"
  /\ D' = SpanRound(G, toks, D)
  /\ IF D' # D THEN UNCHANGED <<ph, st>>
     ELSE Judge((Len(toks) + 1) \in D[<<StartOf(G), 1>>], "a text that is no sentence is accepted")
  /\ UNCHANGED <<c, r, pos, toks>>

Next == Lex \/ Derive
Spec == Init /\ [][Next]_vars
Conforms == ph # "bad"
=============================================================================
