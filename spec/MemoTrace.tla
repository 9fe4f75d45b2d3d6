----------------------------- MODULE MemoTrace -----------------------------
(* Generation as a function: a history of requests, in several processes,    *)
(* each answered with an output. The machine remembers the first answer to   *)
(* every request; every later one, in whatever process and after whatever    *)
(* other requests, must be the same. A case is one request with its history: *)
(*   [id, h: sequence of [proc, n, parts]]; parts: sequence of output parts  *)
EXTENDS Integers, Sequences, FiniteSets, CaseFile
VARIABLES c, k, memo, st
vars == <<c, k, memo, st>>
H == Cases[c].h
Init == c \in DOMAIN Cases /\ k = 1 /\ memo = <<>> /\ st = "run"
Part(x, y) == LET ns == {n \in DOMAIN x.parts : n \notin DOMAIN y.parts \/ x.parts[n] # y.parts[n]}
              IN IF ns = {} THEN "number of outputs" ELSE Cases[c].names[CHOOSE n \in ns : \A m \in ns : n <= m]
Why(e) ==
  IF memo = <<>> \/ memo[1].parts = e.parts THEN ""
  ELSE Part(memo[1], e) \o (IF memo[1].proc = e.proc THEN " differs within one process" ELSE " differs between processes")
Step ==
  /\ st = "run" /\ k \in DOMAIN H
  /\ LET why == Why(H[k]) IN
     /\ st' = IF why = "" THEN "run" ELSE "bad"
     /\ why # "" => PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, why |-> why, at |-> k]))
     /\ memo' = IF memo = <<>> THEN <<H[k]>> ELSE memo
  /\ k' = k + 1 /\ UNCHANGED c
Spec == Init /\ [][Step]_vars
Conforms == st # "bad"
=============================================================================
