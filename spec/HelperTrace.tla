----------------------------- MODULE HelperTrace -----------------------------
(* Recorded evaluations of the type-level helpers, each replayed through the  *)
(* helper's machine, and recorded arithmetic tables                  (C18).   *)
(* A call: [id, t, f, args, res, note, lim]; t = "call".                      *)
(* A table: [id, t, n, succ, pred, note]; t = "table", pairs [from, to].      *)
(* At the end the machine's result must be what the helper means (of the      *)
(* model) and what the code computed.                                         *)
EXTENDS Helpers, CaseFile
VARIABLES c, m, ph
vars == <<c, m, ph>>

Init == /\ c \in DOMAIN Cases
        /\ ph = "work"
        /\ m = IF Cases[c].t = "call" THEN Arrange(Cases[c].f, Cases[c].args) ELSE Arrange("none", <<>>)

Work == /\ ph = "work" /\ Cases[c].t = "call" /\ Busy(m)
        /\ m' = Step(m) /\ UNCHANGED <<c, ph>>

SetOf(s) == {s[n] : n \in DOMAIN s}
TableWhy ==
  LET k == Cases[c] IN
  IF k.note # "" THEN k.note
  ELSE IF SetOf(k.succ) # {<<i, i + 1>> : i \in 0..(k.n - 1)} \/ Len(k.succ) # k.n THEN "not the successors of 0.." \o ToString(k.n - 1)
  ELSE IF SetOf(k.pred) # {<<i + 1, i>> : i \in 0..(k.n - 1)} \/ Len(k.pred) # k.n THEN "not the predecessors of 1.." \o ToString(k.n)
  ELSE ""
CallWhy ==
  LET k == Cases[c] IN
  IF ~InRange(k.f, k.args, k.lim) THEN ""
  ELSE IF Result(m) # Meaning(k.f, k.args) THEN "the machine of the model is wrong"
  ELSE IF k.note # "" THEN k.note
  ELSE IF k.res # Result(m) THEN "another result than the helper means"
  ELSE ""
Judge ==
  /\ ph = "work" /\ ~(Cases[c].t = "call" /\ Busy(m))
  /\ LET why == IF Cases[c].t = "call" THEN CallWhy ELSE TableWhy IN
     /\ ph' = IF why = "" THEN "ok" ELSE "bad"
     /\ why # "" => PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, why |-> why]))
     /\ (Cases[c].t = "call" /\ ~InRange(Cases[c].f, Cases[c].args, Cases[c].lim)) => PrintT("VPOUT " \o ToJson([case |-> Cases[c].id]))
  /\ UNCHANGED <<c, m>>
Next == Work \/ Judge
Spec == Init /\ [][Next]_vars
Conforms == ph # "bad"
=============================================================================
